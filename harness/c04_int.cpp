// C04: integer <-> text conversions are exact, reject what is not a number of the type, never wrap, never over-read.
#include <assert.h>
#include <cybozu/atoi.hpp>
#include <cybozu/itoa.hpp>
#include "common.hpp"
#include <climits>
using namespace vf;
typedef __int128 I;

// ---- independent model ----
static bool refDec(const std::string& s0, bool sgn, I lo, I hi, I *out)
{
	std::string s = s0.substr(0, s0.find('\0')); size_t i = 0; bool neg = false;
	if (sgn && i < s.size() && s[i] == '-') { neg = true; i++; }
	if (i >= s.size()) return false;
	I v = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > ((I)1 << 66)) v = (I)1 << 66; }
	if (neg) v = -v; if (v < lo || v > hi) return false; *out = v; return true;
}
static bool refHex(const std::string& s0, I hi, I *out)
{
	std::string s = s0.substr(0, s0.find('\0')); if (s.empty()) return false; I v = 0;
	for (char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return false; v = v * 16 + d; if (v > ((I)1 << 66)) v = (I)1 << 66; }
	if (v > hi) return false; *out = v; return true;
}
static std::string decStr(I v) { if (v == 0) return "0"; bool n = v < 0; std::string r; if (n) v = -v; while (v) { r += (char)('0' + (int)(v % 10)); v /= 10; } if (n) r += '-'; std::reverse(r.begin(), r.end()); return r; }
static std::string baseStr(uint64_t v, int base, bool up) { std::string r; do { int d = v % base; r += (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v); std::reverse(r.begin(), r.end()); return r; }

template<class T, class Conv> void parse1(const char *name, const std::string& s, bool ok, I want)
{
	std::string d = fmt("%s \"%s\"", name, hex(s).c_str()), k = std::string("parse-") + name; note(d);
	auto agree = [&](bool b, T v, const char *how) { VF_CHECK(b == ok && (!ok || (I)v == want) && (ok || v == 0), k, d + " via " + how + (b ? " accepted " + decStr((I)v) : " rejected")); };
	{ Exact e(s); bool b = !ok; T v = Conv(&b, e.p, e.n); agree(b, v, "ptr,size"); }
	{ Exact e(s); bool th = false; T v = 0; try { v = Conv(e.p, e.n); } catch (cybozu::Exception&) { th = true; } agree(!th, v, "throwing ptr,size"); }
	{ bool b = !ok; T v = Conv(&b, s); agree(b, v, "string"); bool th = false; v = 0; try { v = Conv(s); } catch (cybozu::Exception&) { th = true; } agree(!th, v, "throwing string"); }
	{ Exact e(s + std::string(1, '\0')); bool b = !ok; T v = Conv(&b, e.p); agree(b, v, "cstr"); bool th = false; v = 0; try { v = Conv(e.p); } catch (cybozu::Exception&) { th = true; } agree(!th, v, "throwing cstr"); }
	count(ok ? "accepted" : "rejected");
}
template<class T> void dec1(const char *name, const std::string& s)
{
	I w = 0; bool ok = refDec(s, std::numeric_limits<T>::is_signed, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), &w); parse1<T, cybozu::atoi>(name, s, ok, w);
}
template<class T> void hex1(const char *name, const std::string& s) { I w = 0; bool ok = refHex(s, std::numeric_limits<T>::max(), &w); parse1<T, cybozu::hextoi>(name, s, ok, w); }
static void decAll(const std::string& s)
{
	dec1<signed char>("schar", s); dec1<unsigned char>("uchar", s); dec1<short>("short", s); dec1<unsigned short>("ushort", s); dec1<int>("int", s); dec1<unsigned int>("uint", s);
	dec1<long>("long", s); dec1<unsigned long>("ulong", s); dec1<long long>("llong", s); dec1<unsigned long long>("ullong", s); distinct(hashStr(s) ^ 10); evals(10);
}
static void hexAll(const std::string& s)
{
	hex1<char>("hchar", s); hex1<signed char>("hschar", s); hex1<unsigned char>("huchar", s); hex1<short>("hshort", s); hex1<unsigned short>("hushort", s); hex1<int>("hint", s); hex1<unsigned int>("huint", s);
	hex1<long>("hlong", s); hex1<unsigned long>("hulong", s); hex1<long long>("hllong", s); hex1<unsigned long long>("hullong", s); distinct(hashStr(s) ^ 16); evals(11);
}
static std::string decorate(Rng& g, std::string s)
{
	switch (g.below(14)) {
	case 0: { size_t p = g.below(s.size() + 1); s.insert(p, 1, (char)g.pickc("0123456789-+ .,:/abz@\n")); break; }
	case 1: if (s.size()) s[g.below(s.size())] = (char)g.pickc("0123456789-+ /:g`G@"); break;
	case 2: if (s.size()) s.erase(g.below(s.size()), 1); break;
	case 3: { size_t p = s.size() && s[0] == '-' ? 1 : 0; s.insert(p, g.upto(24), '0'); break; }
	case 4: s += std::string(1, '\0') + "9z"; break;
	case 5: if (g.budget) { size_t n = 1; g.grow(&n); while (n--) s += (char)('0' + g.below(10)); } else s += (char)('0' + g.below(10)); break;
	case 6: s = "-" + s; break;
	case 7: if (s.size()) s.resize(g.below(s.size())); break;
	case 8: if (s.size()) s[g.below(s.size())] = (char)g.next(); break;
	}
	return s;
}
VF_PART(parse_dec, 30000, 1200000)
{
	static const char *edges[] = {"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0", ""};
	std::string s;
	if (rng.chance(1, 2)) { s = edges[rng.below(18)]; if (rng.chance(1, 2)) s = "-" + s; if (rng.chance(1, 3) && s.size() > 1) s.back() = (char)('0' + rng.below(10)); }
	else { uint64_t v = rng.edgy64(); s = rng.chance(1, 2) ? decStr((I)(int64_t)v) : decStr((I)v); }
	if (rng.chance(2, 3)) s = decorate(rng, s); if (rng.chance(1, 6)) s = decorate(rng, s);
	if (wantSample()) sample("dec \"" + hex(s) + "\""); decAll(s);
}
VF_PART(parse_hex, 30000, 1200000)
{
	uint64_t v = rng.edgy64(); std::string s = baseStr(v, 16, rng.chance(1, 2)); if (rng.chance(1, 5)) s = std::string(rng.upto(20), '0') + s; if (rng.chance(1, 6)) s += rng.pickc("0123456789abcdefABCDEF"); if (rng.chance(1, 2)) s = decorate(rng, s);
	for (auto& c : s) if (rng.chance(1, 3)) c = (char)tolower(c);
	if (wantSample()) sample("hex \"" + hex(s) + "\""); hexAll(s);
}
// short strings over the interesting alphabet, exhaustively
VF_PART(parse_small, 2400, 2400)
{
	static const char al[] = "0189-+aAfFgG/:@`\0 2"; const size_t m = sizeof(al) - 1; // 19 symbols
	if (idx < m * m) { for (size_t k = 0; k < m; k++) { std::string s; s += al[idx / m]; s += al[idx % m]; s += al[k]; decAll(s); hexAll(s); } }
	else if (idx < m * m + m) { std::string s(1, al[idx - m * m]); decAll(s); hexAll(s); }
	else if (idx < m * m + m + 1) { decAll(""); hexAll(""); }
	else if (idx < m * m + m + 1 + 700) { int v = (int)(idx - m * m - m - 1) - 350; decAll(fmt("%d", v)); if (v >= 0) hexAll(fmt("%x", v)); }
}
template<class T> void out1(const char *nm, T x)
{
	std::string w = decStr((I)x), o = "junk", d = std::string(nm) + " " + w;
	cybozu::itoa(o, x); VF_EQ(o, w, "itoa", d); VF_EQ(cybozu::itoa(x), w, "itoa-ret", d); T back = 1; bool b = false; back = cybozu::atoi(&b, w); VF_CHECK(b && back == x, "itoa-roundtrip", d);
	distinct(hashStr(w) + sizeof(T));
}
template<class T> void hexout(T x)
{
	std::string d = fmt("%llx/%zu", (unsigned long long)x, sizeof(T));
	for (int up = 0; up < 2; up++) {
		std::string w = baseStr(x, 16, up), full = std::string(sizeof(T) * 2 - w.size(), '0') + w, o = "zz";
		cybozu::itohex(o, x, up, true); VF_EQ(o, full, "itohex", d); cybozu::itohex(o, x, up, false); VF_EQ(o, w, "itohex-short", d); VF_EQ(cybozu::itohex(x, up, true), full, "itohex-ret", d); VF_EQ(cybozu::itohex(x, up, false), w, "itohex-ret", d);
		VF_EQ(cybozu::getHexLength(x), w.size(), "hexlen", d); Exact e(w.size()); cybozu::itohex(e.p, e.n, x, up); VF_EQ(e.str(), w, "itohex-buf", d);
		bool b = false; T back = cybozu::hextoi(&b, full); VF_CHECK(b && back == x, "itohex-roundtrip", d);
	}
	std::string w = baseStr(x, 2, false), full = std::string(sizeof(T) * 8 - w.size(), '0') + w, o = "zz";
	cybozu::itobin(o, x, true); VF_EQ(o, full, "itobin", d); cybozu::itobin(o, x, false); VF_EQ(o, w, "itobin-short", d); VF_EQ(cybozu::itobin(x, true), full, "itobin-ret", d); VF_EQ(cybozu::itobin(x, false), w, "itobin-ret", d);
	VF_EQ(cybozu::getBinLength(x), w.size(), "binlen", d); Exact e(w.size()); cybozu::itobin(e.p, e.n, x); VF_EQ(e.str(), w, "itobin-buf", d);
	VF_CHECK(cybozu::itohex(x) == baseStr(x, 16, true).insert(0, sizeof(T) * 2 - baseStr(x, 16, true).size(), '0'), "itohex-default", d);
}
// fixed buffer formatters: right aligned, 0 when the buffer is too small, nothing outside the buffer
template<class F> static void fit(const char *nm, const std::string& w, F f)
{
	for (size_t n : {w.size() - 1, w.size(), w.size() + 1, (size_t)0, w.size() + 7}) {
		Exact e(n, 0x5a); size_t r = f(e.p, n); std::string d = fmt("%s %s buf=%zu -> %zu", nm, w.c_str(), n, r);
		VF_EQ(r, n < w.size() ? (size_t)0 : w.size(), "fit-size", d); if (r) { VF_CHECK(std::string(e.p + n - r, r) == w, "fit-text", d); for (size_t i = 0; i + r < n; i++) VF_CHECK(e.p[i] == 0x5a, "fit-untouched", d); }
	}
}
template<class T> static void fitU(T x)
{
	using namespace cybozu::itoa_local;
	fit("dec", decStr((I)x), [&](char *p, size_t n) { return uintToDec(p, n, x); }); fit("hexU", baseStr(x, 16, true), [&](char *p, size_t n) { return uintToHex(p, n, x, true); }); fit("hexl", baseStr(x, 16, false), [&](char *p, size_t n) { return uintToHex(p, n, x, false); });
	fit("hexdef", baseStr(x, 16, true), [&](char *p, size_t n) { return uintToHex(p, n, x); }); fit("bin", baseStr(x, 2, false), [&](char *p, size_t n) { return uintToBin(p, n, x); });
	std::string d = fmt("%llx", (unsigned long long)x), H = baseStr(x, 16, true), B = baseStr(x, 2, false), o = "zz"; H.insert(0, sizeof(T) * 2 - H.size(), '0'); B.insert(0, sizeof(T) * 8 - B.size(), '0');
	cybozu::itohex(o, x); VF_EQ(o, H, "itohex-default-out", d); cybozu::itobin(o, x); VF_EQ(o, B, "itobin-default-out", d); VF_EQ(cybozu::itobin(x), B, "itobin-default", d); cybozu::itohex(o, x, false); for (auto& c : H) c = (char)tolower(c); VF_EQ(o, H, "itohex-lower-default", d); VF_EQ(cybozu::itohex(x, false), H, "itohex-lower-default", d);
	Exact e(sizeof(T) * 2); cybozu::itohex(e.p, e.n, x); for (auto& c : H) c = (char)toupper(c); VF_EQ(e.str(), H, "itohex-buf-default", d); count("fit");
}
template<class T> static void fitS(T x) { fit("sdec", decStr((I)x), [&](char *p, size_t n) { return cybozu::itoa_local::intToDec(p, n, x); }); }
VF_PART(buffers, 8000, 300000)
{
	uint64_t v = idx == 0 ? 0 : idx == 1 ? 1ull << 63 : idx == 2 ? ~0ull : idx == 3 ? ~0ull >> 1 : idx == 4 ? 0x80000000ull : rng.edgy64(); note(fmt("%llx", (unsigned long long)v));
	fitU((unsigned char)v); fitU((unsigned short)v); fitU((unsigned int)v); fitU((unsigned long)v); fitU((unsigned long long)v); fitS((long long)v); fitS((int)v); fitS((long)v);
	distinct(mix(v)); evals(30);
}
VF_PART(format, 40000, 1500000)
{
	uint64_t v = rng.edgy64(); note(fmt("%llx", (unsigned long long)v));
	out1<int>("int", (int)v); out1<unsigned int>("uint", (unsigned)v); out1<long>("long", (long)v); out1<unsigned long>("ulong", v); out1<long long>("llong", (long long)v); out1<unsigned long long>("ullong", v);
	hexout<unsigned char>((unsigned char)v); hexout<unsigned short>((unsigned short)v); hexout<unsigned int>((unsigned)v); hexout<unsigned long>(v); hexout<unsigned long long>(v);
	int x = (int)v; size_t len = rng.upto(14); char c = rng.chance(1, 3) ? ' ' : '0'; std::string w = decStr(x), want = w; if (w.size() < len) { if (x < 0) want = "-" + std::string(len - w.size(), c) + w.substr(1); else want = std::string(len - w.size(), c) + w; }
	VF_EQ(cybozu::itoaWithZero(x, len, c), want, "itoazero", fmt("%d %zu", x, len)); evals(12); count("format");
}
VF_LONG(longdec, parse_dec, 600, 20000, 3000)
VF_LONG(longhex, parse_hex, 300, 10000, 3000)
VF_LONG(longformat, format, 300, 10000, 70000)
