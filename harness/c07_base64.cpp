// C07: base64.
#include <sys/types.h>
#include <cybozu/base64.hpp>
#include <openssl/evp.h>
#include "common.hpp"
using namespace vf;
struct Chunky { const std::string& s; size_t pos; Rng g; int style; Chunky(const std::string& s, uint64_t seed) : s(s), pos(0), g(seed), style(g.below(3)) {} size_t readSome(void *buf, size_t n) { size_t r = std::min(n, s.size() - pos); if (r > 1) { if (style == 0) r = 1; else if (style == 1) r = 1 + g.below(r); } if (r) memcpy(buf, s.data() + pos, r); pos += r; return r; } };
static std::string refB64(const std::string& s) { std::string o((s.size() + 2) / 3 * 4 + 1, 0); int n = EVP_EncodeBlock((unsigned char*)&o[0], (const unsigned char*)s.data(), (int)s.size()); o.resize(n); return o; }
static std::string refDec(const std::string& s)
{
	static const char tbl[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; unsigned acc = 0; int bits = 0;
	for (char c : s) { const char *p = c ? strchr(tbl, c) : 0; if (!p) continue; acc = (acc << 6 | (unsigned)(p - tbl)) & 0xffffff; bits += 6; if (bits >= 8) { bits -= 8; o += (char)(acc >> bits); } } return o;
}
static std::string decode(Rng& g, const std::string& t)
{
	std::string o; cybozu::StringOutputStream os(o);
	if (g.chance(1, 3)) { cybozu::Base64Decoder<cybozu::StringOutputStream> dec(os); size_t i = 0; while (i < t.size()) { Exact e(t.substr(i, 1 + g.below(40))); VF_EQ((size_t)dec.write(e.p, e.n), e.n, "decoder-ret", ""); i += e.n; if (g.chance(1, 20)) dec.flush(); } dec.flush(); count("decoder-chunks"); }
	else if (g.chance(1, 2)) { Chunky is(t, g.next()); cybozu::DecodeFromBase64(os, is); } else { std::istringstream is(t); cybozu::DecodeFromBase64(os, is); }
	return o;
}
VF_PART(roundtrip, 40000, 1200000)
{
	size_t n = rng.chance(1, 40) ? rng.below(6000) : rng.chance(1, 20) ? 1024 * (1 + rng.below(3)) + rng.range(-3, 3) : rng.len(300); std::string s = rng.chance(1, 5) ? std::string(n, (char)rng.next()) : rng.bytes(n);
	size_t line = rng.chance(1, 3) ? 0 : 4 * (1 + rng.below(32)); int mode = rng.below(3); std::string d = fmt("len=%zu line=%zu mode=%d", s.size(), line, mode); note(d);
	std::string b = refB64(s), want, eol = mode == cybozu::base64::useLF ? "\n" : mode == cybozu::base64::useCRLF ? "\r\n" : "";
	if (line == 0) want = b; else for (size_t i = 0; i < b.size(); i += line) want += b.substr(i, line) + eol;
	std::string o; int how = rng.below(3);
	if (how == 0) { Chunky is(s, rng.next()); cybozu::StringOutputStream os(o); cybozu::EncodeToBase64(os, is, line, mode); } else if (how == 1) { std::istringstream is(s); std::ostringstream os; cybozu::EncodeToBase64(os, is, line, mode); o = os.str(); } else { Exact e(s); cybozu::MemoryInputStream is(e.p, e.n); cybozu::StringOutputStream os(o); cybozu::EncodeToBase64(os, is, line, mode); }
	VF_CHECK(o == want, "encode", d + " got=" + hex(o, 120) + " want=" + hex(want, 120)); VF_CHECK(decode(rng, o) == s, "roundtrip", d);
	// characters outside the alphabet are ignored
	std::string t; for (char c : o) { if (rng.chance(1, 30)) t += rng.pickc(" \t\r\n-_.:@[`{,\x01\x7f\x80\xff*"); t += c; } VF_CHECK(decode(rng, t) == s, "noise", d + " " + hex(t, 100));
	count("roundtrip"); if (s.size() % 3) count("padded"); distinct(hashStr(s) + line * 3 + mode); if (wantSample()) sample(d);
}
VF_PART(garbage, 20000, 600000)
{
	std::string t = rng.chance(1, 2) ? rng.bytes(rng.len(3000)) : rng.from("ABCDwxyz0189+/", rng.len(3000)); VF_CHECK(decode(rng, t) == refDec(t), "garbage", hex(t, 100)); distinct(hashStr(t)); count("garbage");
}
VF_PART(badline, 400, 400)
{
	size_t line = idx; std::string s = rng.bytes(rng.below(100)), o; cybozu::StringInputStream is(s); cybozu::StringOutputStream os(o); bool bad = line % 4 != 0 || line > 128, th = false; try { cybozu::EncodeToBase64(os, is, line); } catch (cybozu::Exception&) { th = true; }
	VF_EQ(th, bad, "badline", fmt("%zu", line)); if (!th) { size_t cur = 0; for (char c : o) { if (c == '\n') cur = 0; else if (c != '\r') cur++; VF_CHECK(line == 0 || cur <= line, "linelen", fmt("%zu", line)); } }
}
VF_LONG(longroundtrip, roundtrip, 200, 6000, 400000)
VF_LONG(longgarbage, garbage, 200, 6000, 400000)
