// C01: UTF-8 / UTF-16 / code point conversions agree with the Unicode definition.
#include <cybozu/string.hpp>
#include "common.hpp"
using namespace vf;
typedef cybozu::Char Char; typedef cybozu::Char16 Char16; typedef cybozu::String16 String16;

// ---- independent reference ----
static bool isScalar(int64_t c) { return c >= 0 && c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static std::string refEnc8(uint32_t c)
{
	std::string r;
	int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
	if (n == 1) { r += (char)c; return r; }
	static const int lead[] = {0, 0, 0xC0, 0xE0, 0xF0};
	r += (char)(lead[n] + (c >> (6 * (n - 1))));
	for (int i = n - 2; i >= 0; i--) r += (char)(0x80 + ((c >> (6 * i)) % 64));
	return r;
}
// returns consumed length or 0 if the prefix is ill-formed
static int refDec8(const unsigned char *p, size_t n, uint32_t *out)
{
	if (n == 0) return 0;
	int len = p[0] < 0x80 ? 1 : (p[0] >> 5) == 6 ? 2 : (p[0] >> 4) == 14 ? 3 : (p[0] >> 3) == 30 ? 4 : 0;
	if (len == 0 || (size_t)len > n) return 0;
	uint32_t c = len == 1 ? p[0] : p[0] & ((1 << (7 - len)) - 1);
	for (int i = 1; i < len; i++) { if ((p[i] >> 6) != 2) return 0; c = c * 64 + (p[i] & 63); }
	static const uint32_t minv[] = {0, 0, 0x80, 0x800, 0x10000};
	if (c < minv[len] || !isScalar(c)) return 0;
	*out = c; return len;
}
static bool refUtf8ToCps(const std::string& s, std::vector<uint32_t> *out)
{
	out->clear(); size_t i = 0;
	while (i < s.size()) { uint32_t c; int l = refDec8((const unsigned char*)s.data() + i, s.size() - i, &c); if (!l) return false; out->push_back(c); i += l; }
	return true;
}
static void refEnc16(String16 *o, uint32_t c) { if (c < 0x10000) o->push_back((Char16)c); else { c -= 0x10000; o->push_back((Char16)(0xD800 + c / 1024)); o->push_back((Char16)(0xDC00 + c % 1024)); } }
static bool ref16ToCps(const String16& s, std::vector<uint32_t> *out)
{
	out->clear();
	for (size_t i = 0; i < s.size(); i++) {
		uint32_t u = s[i];
		if (u >= 0xD800 && u < 0xDC00) { if (i + 1 >= s.size()) return false; uint32_t v = s[i + 1]; if (v < 0xDC00 || v > 0xDFFF) return false; out->push_back(0x10000 + (u - 0xD800) * 1024 + (v - 0xDC00)); i++; }
		else if (u >= 0xDC00 && u <= 0xDFFF) return false;
		else out->push_back(u);
	}
	return true;
}
static std::string show16(const String16& s) { std::string r; for (Char16 c : s) r += fmt("%04x ", c); return r; }

static void checkCp(int64_t c)
{
	const bool ok = isScalar(c);
	std::string d = fmt("U+%llX", (long long)c);
	int size = cybozu::string::GetCharSize((Char)c);
	std::string e8; String16 e16;
	if (ok) { e8 = refEnc8((uint32_t)c); refEnc16(&e16, (uint32_t)c); }
	VF_EQ(size, (int)e8.size(), "cp-charsize", d);
	VF_EQ(cybozu::string::IsValidChar((Char)c), ok, "cp-isvalid", d);
	char b8[4]; memset(b8, 0x55, 4);
	int n8 = cybozu::string::toUtf8(b8, (Char)c);
	VF_CHECK(std::string(b8, n8 < 0 ? 0 : n8) == e8, "cp-toutf8", d);
	Char16 b16[2];
	int n16 = cybozu::string::toUtf16(b16, (Char)c);
	VF_CHECK(n16 == (int)e16.size() && std::equal(e16.begin(), e16.end(), b16), "cp-toutf16", d);
	std::string a = "x"; VF_EQ(cybozu::string::AppendUtf8(a, (Char)c), ok, "cp-append8", d); VF_EQ(a, "x" + e8, "cp-append8", d);
	String16 a16(1, 'y'); VF_EQ(cybozu::string::AppendUtf16(a16, (Char)c), ok, "cp-append16", d); VF_CHECK(a16 == String16(1, 'y') + e16, "cp-append16", d);
	if (ok) {
		Exact x(e8); const char *p = x.begin(); Char got = -7;
		VF_CHECK(cybozu::string::GetCharFromUtf8(&got, p, x.end()) && got == (Char)c && p == x.end(), "cp-dec8", d);
		std::vector<Char16> v(e16.begin(), e16.end()); const Char16 *q = v.data(); got = -7;
		VF_CHECK(cybozu::string::GetCharFromUtf16(got, q, (const Char16*)(v.data() + v.size())) && got == (Char)c && q == v.data() + v.size(), "cp-dec16", d);
	}
	cybozu::String s(1, (Char)c); VF_EQ(s.isValid(), ok, "cp-string-isvalid", d);
	bool th = false; std::string u8; try { u8 = s.toUtf8(); } catch (cybozu::Exception&) { th = true; }
	VF_CHECK(th == !ok && (th || u8 == e8), "cp-string-toutf8", d);
	th = false; String16 u16; try { u16 = s.toUtf16(); } catch (cybozu::Exception&) { th = true; }
	VF_CHECK(th == !ok && (th || u16 == e16), "cp-string-toutf16", d);
}
// every code point and every neighbourhood outside the code space
VF_PART(codepoints, 0x110, 0x110)
{
	for (int i = 0; i < 4096; i++) checkCp((int64_t)idx * 4096 + i);
	evals(4095); count("code points checked", 4096); distinct(idx);
	if (wantSample()) sample(fmt("code points U+%llX..U+%llX", (long long)idx * 4096, (long long)idx * 4096 + 4095));
}
VF_PART(outside, 4000, 400000)
{
	int64_t c;
	switch (rng.below(5)) {
	case 0: c = 0x110000 + rng.below(70000); break;
	case 1: c = (int32_t)rng.next(); break;
	case 2: c = -(int64_t)rng.below(300); break;
	case 3: c = 0xD7F0 + rng.below(0x820); break;
	default: c = (int32_t)rng.edgy64(); break;
	}
	checkCp(c); count("out-of-range / edge integers checked"); distinct(c);
}
static void checkSeq(const unsigned char *p, size_t n)
{
	uint32_t rc = 0; int rl = refDec8(p, n, &rc);
	const char *b = (const char*)p; Char c = -1;
	bool ok = cybozu::string::GetCharFromUtf8(&c, b, (const char*)p + n);
	if (ok != (rl > 0) || (ok && ((uint32_t)c != rc || b - (const char*)p != rl))) fail("seq-dec8", fmt("bytes %s ref len=%d cp=%x got ok=%d cp=%x adv=%ld", hex(std::string((const char*)p, n)).c_str(), rl, rc, ok, (unsigned)c, (long)(b - (const char*)p)));
	if (b > (const char*)p + n) fail("seq-dec8-overrun", hex(std::string((const char*)p, n)));
}
// all 1,2,3 byte sequences
VF_PART(seq3, 256, 256)
{
	unsigned char *p = (unsigned char*)malloc(3); p[0] = (unsigned char)idx;
	std::unique_ptr<unsigned char, void(*)(void*)> g(p, free);
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { p[1] = a; p[2] = b; checkSeq(p, 3); }
	unsigned char *q = (unsigned char*)malloc(2); std::unique_ptr<unsigned char, void(*)(void*)> g2(q, free); q[0] = idx;
	for (int a = 0; a < 256; a++) { q[1] = a; checkSeq(q, 2); }
	unsigned char *r = (unsigned char*)malloc(1); std::unique_ptr<unsigned char, void(*)(void*)> g3(r, free); r[0] = idx; checkSeq(r, 1);
	evals(65536 + 256); count("byte sequences decoded", 65536 + 257); distinct(idx);
}
VF_PART(seq4, 256, 256)
{
	static const unsigned char bs[] = {0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xb0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff};
	unsigned char *p = (unsigned char*)malloc(4); std::unique_ptr<unsigned char, void(*)(void*)> g(p, free); p[0] = idx;
	uint64_t n = 0;
	if (idx >= 0xF0 && idx <= 0xF5 && st().thorough) {
		for (uint32_t v = 0; v < (1u << 24); v++) { p[1] = v >> 16; p[2] = v >> 8; p[3] = v; checkSeq(p, 4); n++; }
	} else {
		for (int a = 0; a < 256; a++) for (unsigned char b : bs) for (unsigned char c : bs) { p[1] = a; p[2] = b; p[3] = c; checkSeq(p, 4); n++; }
	}
	evals(n); count("byte sequences decoded", n); distinct(idx);
}
static uint32_t rndCp(Rng& rng)
{
	for (;;) {
		uint32_t c;
		switch (rng.below(9)) {
		case 0: case 1: c = rng.below(0x80); break;
		case 2: c = 0x70 + rng.below(0x20); break;
		case 3: c = 0x7f0 + rng.below(0x20); break;
		case 4: c = 0xffe0 + rng.below(0x40); break;
		case 5: c = 0xd7f0 + rng.below(0x820); break;
		case 6: c = 0x10fff0 + rng.below(0x10); break;
		case 7: c = 0x3040 + rng.below(0x60); break;
		default: c = rng.below(0x110000); break;
		}
		if (isScalar(c)) return c;
	}
}
static void judge8(const std::string& in)
{
	std::vector<uint32_t> cps; bool ok = refUtf8ToCps(in, &cps); std::string d = hex(in);
	String16 e16; std::wstring e32; for (uint32_t c : cps) { refEnc16(&e16, c); e32 += (wchar_t)c; }
	Exact x(in);
	// ranges over exact-size memory
	String16 o16(3, 'z'); bool b = cybozu::ConvertUtf8ToUtf16(&o16, x.begin(), x.end());
	VF_EQ(b, ok, "str-conv8to16-accept", d); if (ok) VF_CHECK(o16 == e16, "str-conv8to16", d);
	o16.assign(2, 'q'); b = cybozu::ConvertUtf8ToUtf16(&o16, in); VF_CHECK(b == ok && (!ok || o16 == e16), "str-conv8to16s", d);
	bool th = false; String16 t16; try { t16 = cybozu::ToUtf16(in); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || t16 == e16), "str-toutf16", d);
	th = false; cybozu::String s; try { s = cybozu::String(x.begin(), x.end()); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || s.get() == e32), "str-ctor-range", d);
	th = false; try { s.assign(in); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || s.get() == e32), "str-assign", d);
	th = false; try { s = cybozu::String(x.begin(), in.size()); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || s.get() == e32), "str-ctor-n", d);
	if (in.find('\0') == std::string::npos) {
		th = false; try { s = cybozu::String(in.c_str()); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || s.get() == e32), "str-ctor-cstr", d);
		th = false; cybozu::String s2; try { s2 = in.c_str(); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || s2.get() == e32), "str-assign-cstr", d);
	}
	if (ok) {
		s.assign(in); VF_EQ(s.toUtf8(), in, "str-roundtrip8", d); VF_CHECK(s.toUtf16() == e16, "str-toutf16m", d); VF_CHECK(s.isValid(), "str-isvalid", d);
		cybozu::String s3(e16); VF_CHECK(s3.get() == e32, "str-ctor-16", d);
		VF_CHECK(s == in && !(s != in), "str-eq-utf8", d);
	}
	// reader
	std::vector<uint32_t> got; th = false;
	try { cybozu::Utf8ref r(x.begin(), x.end()); Char c; while (r.next(&c)) got.push_back((uint32_t)c); } catch (cybozu::Exception&) { th = true; }
	VF_CHECK(th == !ok && (th || got == cps), "str-utf8ref", d);
	got.clear(); { cybozu::Utf8ref r(x.begin(), in.size(), true); Char c; while (r.next(&c)) { got.push_back((uint32_t)c); VF_CHECK(isScalar(c), "str-utf8ref-ignore", d); VF_CHECK(got.size() <= in.size(), "str-utf8ref-ignore-count", d); } }
	if (ok) VF_CHECK(got == cps, "str-utf8ref-ignore", d);
	// bad characters are skipped, not the text after them: no lead byte of `in` reaches further than three bytes
	{ std::string tail = "....Z\xe3\x81\x82"; Exact y(in + tail); std::vector<uint32_t> g2; cybozu::Utf8ref r(y.begin(), y.n, true); Char c; while (r.next(&c)) { g2.push_back((uint32_t)c); VF_CHECK(g2.size() <= y.n, "str-utf8ref-skip-count", d); } VF_CHECK(g2.size() >= 3 && g2[g2.size() - 1] == 0x3042 && g2[g2.size() - 2] == 'Z' && g2[g2.size() - 3] == '.', "str-utf8ref-skip", d);
		size_t i = 0, k = 0; uint32_t w; while (i < in.size()) { int l = refDec8((const unsigned char*)in.data() + i, in.size() - i, &w); if (!l) break; VF_CHECK(k < g2.size() && g2[k] == w, "str-utf8ref-skip-prefix", d); k++; i += l; } }
	count(ok ? "well-formed UTF-8 strings accepted" : "ill-formed UTF-8 strings rejected");
}
VF_PART(strings8, 60000, 2000000)
{
	std::string s; size_t n = rng.len(40);
	for (size_t i = 0; i < n; i++) s += refEnc8(rndCp(rng));
	for (uint64_t k = rng.below(4); k > 0 && !s.empty(); k--) {
		size_t pos = rng.below(s.size());
		switch (rng.below(5)) {
		case 0: s[pos] = (char)rng.next(); break;
		case 1: s.erase(pos, 1 + rng.below(2)); break;
		case 2: s.insert(pos, 1, (char)(0x80 + rng.below(0x80))); break;
		case 3: s.resize(pos); break;
		default: { static const char *bad[] = {"\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xc1\xbf", "\xed\xbf\xbf", "\xff", "\x80"}; s.insert(pos, bad[rng.below(10)]); }
		}
	}
	note(hex(s)); judge8(s); distinct(hashStr(s)); if (wantSample()) sample("utf8 " + hex(s, 60));
}
static void judge16(const String16& in)
{
	std::vector<uint32_t> cps; bool ok = ref16ToCps(in, &cps); std::string e8, d = show16(in); std::wstring e32; for (uint32_t c : cps) { e8 += refEnc8(c); e32 += (wchar_t)c; }
	Char16 *buf = (Char16*)malloc(in.size() * 2 + (in.empty() ? 1 : 0)); std::unique_ptr<Char16, void(*)(void*)> g(buf, free); std::copy(in.begin(), in.end(), buf);
	std::string o = "junk"; bool b = cybozu::ConvertUtf16ToUtf8(&o, (const Char16*)buf, (const Char16*)buf + in.size()); VF_CHECK(b == ok && (!ok || o == e8), "str16-conv", d);
	o = "j"; b = cybozu::ConvertUtf16ToUtf8(&o, in); VF_CHECK(b == ok && (!ok || o == e8), "str16-convs", d);
	bool th = false; std::string t; try { t = cybozu::ToUtf8(in); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || t == e8), "str16-toutf8", d);
	th = false; cybozu::String s; try { s = cybozu::String(in); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || s.get() == e32), "str16-ctor", d);
	th = false; cybozu::String s2; try { s2.append((const Char16*)buf, (const Char16*)buf + in.size()); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || s2.get() == e32), "str16-append", d);
	if (ok) VF_CHECK(s.toUtf16() == in, "str16-roundtrip", d);
	count(ok ? "well-formed UTF-16 strings accepted" : "ill-formed UTF-16 strings rejected");
}
VF_PART(strings16, 40000, 1000000)
{
	String16 s; size_t n = rng.len(20); bool clean = rng.chance(1, 2);
	for (size_t i = 0; i < n; i++) {
		if (clean || rng.chance(2, 3)) refEnc16(&s, rndCp(rng));
		else s.push_back((Char16)(rng.chance(2, 3) ? 0xD7F0 + rng.below(0x830) : rng.next()));
	}
	judge16(s); distinct(hashBytes(s.data(), s.size() * 2)); if (wantSample()) sample("utf16 " + show16(s));
}
// all boundary pairs of UTF-16 units
VF_PART(pairs16, 1, 1)
{
	std::vector<Char16> u = {0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xdffe, 0xdfff, 0xe000, 0xfffe, 0xffff};
	for (Char16 a : u) { String16 s(1, a); judge16(s); for (Char16 b : u) { String16 t = s; t.push_back(b); judge16(t); for (Char16 c : u) { String16 v = t; v.push_back(c); judge16(v); evals(); } } }
	judge16(String16()); distinct(1);
}
VF_LONG(longstrings8, strings8, 200, 6000, 200000)
VF_LONG(longstrings16, strings16, 200, 6000, 200000)
