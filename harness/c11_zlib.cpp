// C11: zlib/gzip streams. Oracle: libz itself.
#include <cybozu/zlib.hpp>
#include "common.hpp"
using namespace vf;
struct Chunky { const std::string& s; size_t pos; Rng g; int style; Chunky(const std::string& s, uint64_t seed) : s(s), pos(0), g(seed), style(g.below(3)) {}
	size_t readSome(void *buf, size_t n) { size_t r = std::min(n, s.size() - pos); if (r > 1 && style) r = style == 1 ? 1 : 1 + g.below(r); memcpy(buf, s.data() + pos, r); pos += r; return r; } };
struct BadOut { std::string o; size_t left; explicit BadOut(size_t n) : left(n) {} void write(const void *p, size_t n) { if (n > left) throw cybozu::Exception("full"); left -= n; o.append((const char*)p, n); } };
// wbits: 15 zlib, 31 gzip. returns ok
static bool oracle(const std::string& in, int wbits, std::string *out, size_t *used)
{
	z_stream z; memset(&z, 0, sizeof(z)); if (inflateInit2(&z, wbits) != Z_OK) abort(); z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); out->clear(); char b[4096]; int r;
	do { z.next_out = (Bytef*)b; z.avail_out = sizeof(b); r = inflate(&z, Z_NO_FLUSH); if (r != Z_OK && r != Z_STREAM_END) break; out->append(b, sizeof(b) - z.avail_out); } while (r != Z_STREAM_END);
	*used = z.total_in; inflateEnd(&z); return r == Z_STREAM_END;
}
static std::string content(Rng& g)
{
	size_t n = g.chance(1, 30) ? 30000 + g.below(60000) : g.chance(1, 4) ? g.below(9000) : g.len(500);
	switch (g.below(4)) { case 0: return g.bytes(n); case 1: return std::string(n, (char)g.next()); case 2: return g.from("ab", n); default: { std::string w = g.bytes(1 + g.below(30)), s; while (s.size() < n) { s += w; if (g.chance(1, 3)) s += (char)g.next(); } s.resize(n); return s; } }
}
template<class C> static void feed(C& c, Rng& g, const std::string& s) { size_t i = 0; int st = g.below(3); while (i < s.size()) { size_t n = st == 0 ? s.size() : st == 1 ? 1 + g.below(7) : 1 + g.below(3000); Exact e(s.substr(i, n)); c.write(e.p, e.n); i += e.n; if (g.chance(1, 50)) c.write("", 0); } }
template<size_t B> static std::string comp(Rng& g, const std::string& s, bool gz, int level)
{
	std::string o; cybozu::StringOutputStream os(o); int end = g.below(3);
	if (g.chance(1, 4)) { std::ostringstream oss; { cybozu::ZlibCompressorT<std::ostringstream, B> c(oss, gz, level); feed(c, g, s); if (end) c.flush(); } return oss.str(); }
	{ cybozu::ZlibCompressorT<cybozu::StringOutputStream, B> c(os, gz, level); feed(c, g, s); if (end) { c.flush(); size_t n = o.size(); if (end == 2) { c.flush(); VF_EQ(o.size(), n, "flush-twice", ""); } } }
	return o;
}
enum R { OK, THREW };
template<size_t B> static R decomp(Rng& g, const std::string& z, bool gz, std::string *out, size_t *consumed = 0)
{
	out->clear(); Chunky is(z, g.next()); cybozu::ZlibDecompressorT<Chunky, B> d(is, gz); int st = g.below(3);
	try {
		for (size_t calls = 0;; calls++) {
			size_t n = st == 0 ? 1 : st == 1 ? 1 + g.below(100) : 1 + g.below(5000); Exact e(n); size_t r = d.readSome(e.p, n); VF_CHECK(r <= n, "ret", ""); out->append(e.p, r); if (r == 0) { VF_CHECK(d.isEmpty(), "empty-flag", "end of data but not marked as ended"); break; }
			VF_CHECK(out->size() < 40000000 && calls < 50000000, "runaway", "");
		}
		char c; VF_EQ(d.readSome(&c, 1), 0u, "after-end", ""); VF_CHECK(throws<cybozu::Exception>([&] { d.read(&c, 1); }), "read-after-end", "");
	} catch (cybozu::Exception&) { return THREW; }
	if (consumed) *consumed = is.pos; return OK;
}
static std::string comp(Rng& g, const std::string& s, bool gz, int lv) { switch (g.below(4)) { case 0: return comp<1>(g, s, gz, lv); case 1: return comp<13>(g, s, gz, lv); case 2: return comp<256>(g, s, gz, lv); default: return comp<2048>(g, s, gz, lv); } }
static R decomp(Rng& g, const std::string& s, bool gz, std::string *o) { switch (g.below(4)) { case 0: return decomp<1>(g, s, gz, o); case 1: return decomp<13>(g, s, gz, o); case 2: return decomp<256>(g, s, gz, o); default: return decomp<2048>(g, s, gz, o); } }
static std::string refComp(Rng& g, const std::string& s, bool gz)
{
	z_stream z; memset(&z, 0, sizeof(z)); if (deflateInit2(&z, g.range(0, 9), Z_DEFLATED, gz ? -15 : 9 + g.below(7), 1 + g.below(9), g.below(5)) != Z_OK) abort(); std::string o(deflateBound(&z, s.size()) + 1000, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); if (deflate(&z, Z_FINISH) != Z_STREAM_END) abort(); o.resize(z.total_out); deflateEnd(&z); return o;
}
static std::string le32(uint32_t v) { std::string r; for (int i = 0; i < 4; i++) r += (char)(v >> (8 * i)); return r; }
// gzip member with every optional header field; *hdr = header length
static std::string gzip(Rng& g, const std::string& s, size_t *hdr, bool plain = false)
{
	int flg = plain ? 0 : g.below(32); std::string h("\x1f\x8b\x08", 3); h += (char)flg; h += g.bytes(6);
	if (flg & 4) { size_t n = g.chance(1, 10) ? 200 + g.below(400) : g.chance(1, 12) ? 32000 + g.below(33536) : g.below(20); h += (char)(n & 255); h += (char)(n >> 8); h += g.bytes(n); } 
	if (flg & 8) { std::string nm = g.bytes(g.below(g.chance(1, 20) ? 9000 : 20)); nm.erase(std::remove(nm.begin(), nm.end(), '\0'), nm.end()); h += nm; h += '\0'; } if (flg & 16) { std::string nm = g.bytes(g.below(20)); nm.erase(std::remove(nm.begin(), nm.end(), '\0'), nm.end()); h += nm; h += '\0'; }
	if (flg & 2) { uint32_t c = crc32(crc32(0, 0, 0), (const Bytef*)h.data(), h.size()); h += (char)c; h += (char)(c >> 8); } *hdr = h.size();
	return h + refComp(g, s, true) + le32(crc32(crc32(0, 0, 0), (const Bytef*)s.data(), s.size())) + le32(s.size());
}
// sizes the implementation cannot handle are refused before anything is read or written, never cut
VF_PART(toolarge, 40, 400)
{
	size_t n = rng.pick(std::vector<size_t>{ 1ull << 31, (1ull << 31) + 1, 1ull << 32, (1ull << 32) + 5, (1ull << 33) + 1 }); bool gz = rng.chance(1, 2); std::string d = fmt("size=%zu gzip=%d", n, gz), data = rng.bytes(10), o; note(d);
	{ cybozu::StringOutputStream os(o); Exact e(data); { cybozu::ZlibCompressorT<cybozu::StringOutputStream> c(os, gz); c.write(e.p, e.n); VF_CHECK(throws<cybozu::Exception>([&] { c.write(e.p, n); }), "write-too-large", d); c.flush(); } std::string back; size_t used; VF_CHECK(oracle(o, gz ? 31 : 15, &back, &used) && back == data, "write-after-too-large", d); }
	{ cybozu::StringInputStream is(o); cybozu::ZlibDecompressorT<cybozu::StringInputStream> c(is, gz); Exact e(data.size()); VF_CHECK(throws<cybozu::Exception>([&] { c.readSome(e.p, n); }), "read-too-large", d); c.read(e.p, e.n); VF_CHECK(e.str() == data, "read-after-too-large", d); }
	count("toolarge"); evals(2); distinct(n + gz);
}
VF_PART(roundtrip, 6000, 200000)
{
	std::string s = content(rng); bool gz = rng.chance(1, 2); int lv = rng.range(-1, 9); std::string d = fmt("len=%zu gzip=%d level=%d", s.size(), gz, lv); note(d);
	std::string z = comp(rng, s, gz, lv), o; size_t used; VF_CHECK(oracle(z, gz ? 31 : 15, &o, &used) && o == s && used == z.size(), "standard", d + " compressed stream is not what zlib expects");
	VF_CHECK(decomp(rng, z, gz, &o) == OK && o == s, "roundtrip", d); distinct(hashStr(z)); count(gz ? "gzip-roundtrip" : "zlib-roundtrip"); if (wantSample()) sample(d + fmt(" compressed=%zu", z.size()));
	// exact read, then more data than there is
	if (!s.empty()) { Chunky is(z, rng.next()); cybozu::ZlibDecompressorT<Chunky> dd(is, gz); Exact e(s.size()); dd.read(e.p, e.n); VF_CHECK(e.str() == s, "read-exact", d); char c; VF_CHECK(throws<cybozu::Exception>([&] { dd.read(&c, 1); }), "read-more", d); }
	{ Chunky is(z, rng.next()); cybozu::ZlibDecompressorT<Chunky> dd(is, gz); size_t part = rng.below(s.size() + 1); { Exact e(part); dd.read(e.p, e.n); VF_CHECK(e.str() == s.substr(0, part), "read-part", d); } Exact e(s.size() - part + 1 + rng.below(5)); VF_CHECK(throws<cybozu::Exception>([&] { dd.read(e.p, e.n); }), "read-beyond", d + fmt(" %zu after %zu", e.n, part)); }
	// cut anywhere: always reported
	size_t cut = rng.chance(1, 2) ? z.size() - 1 - rng.below(std::min<size_t>(z.size(), 12)) : rng.below(z.size()); VF_CHECK(decomp(rng, z.substr(0, cut), gz, &o) == THREW, "truncated", d + fmt(" cut at %zu of %zu", cut, z.size())); VF_CHECK(s.compare(0, o.size(), o) == 0, "truncated-prefix", d); count("truncated");
}
// single calls larger than any internal buffer or 16/20-bit count
VF_PART(bulk, 16, 300)
{
	size_t n = (1u << 20) - 2 + rng.below(5) + (rng.chance(1, 2) ? rng.below(9u << 20) : 0); std::string s = rng.chance(1, 3) ? std::string(n, 'x') : std::string(); if (s.empty()) { std::string w = rng.bytes(700); while (s.size() < n) s += w; s.resize(n); } bool gz = rng.chance(2, 3); std::string d = fmt("len=%zu gzip=%d", n, gz), o, back; size_t used; note(d);
	{ cybozu::StringOutputStream os(o); cybozu::ZlibCompressorT<cybozu::StringOutputStream> c(os, gz, rng.range(1, 6)); c.write(s.data(), s.size()); c.flush(); } VF_CHECK(oracle(o, gz ? 31 : 15, &back, &used) && back == s && used == o.size(), "bulk-standard", d);
	{ cybozu::StringInputStream is(o); cybozu::ZlibDecompressorT<cybozu::StringInputStream, 65536 * 4> c(is, gz); Exact e(n + 1); size_t pos = 0; for (;;) { size_t k = c.readSome(e.p + pos, e.n - pos); if (k == 0) break; pos += k; } VF_CHECK(pos == n && memcmp(e.p, s.data(), n) == 0, "bulk-roundtrip", d); }
	count("bulk"); evals(2); distinct(hashStr(o));
}
VF_PART(foreign, 6000, 200000)
{
	std::string s = content(rng), o; bool gz = rng.chance(2, 3); size_t hdr = 0; std::string z = gz ? gzip(rng, s, &hdr) : refComp(rng, s, false), d = fmt("len=%zu gzip=%d hdr=%zu flags=%d", s.size(), gz, hdr, gz ? z[3] : 0); note(d);
	VF_CHECK(decomp(rng, z, gz, &o) == OK && o == s, "foreign", d); count(gz ? "foreign-gzip" : "foreign-zlib"); distinct(hashStr(z));
	size_t cut = rng.below(z.size()); VF_CHECK(decomp(rng, z.substr(0, cut), gz, &o) == THREW, "foreign-truncated", d + fmt(" cut %zu", cut));
	// bad header
	if (gz) { std::string b = z; int w = rng.below(4); if (w < 3) b[w] ^= 1 << rng.below(8); else b[3] |= 0x20 << rng.below(3); VF_CHECK(decomp(rng, b, true, &o) == THREW, "bad-header", d); count("bad-header"); }
}
VF_PART(corrupt, 20000, 700000)
{
	std::string s = content(rng), o, w; if (s.size() > 3000) s.resize(3000); bool gz = rng.chance(1, 2); size_t hdr = 0, used; std::string z = gz ? gzip(rng, s, &hdr, true) : comp(rng, s, false, 6); int k = 1 + rng.below(3); if (rng.chance(1, 20)) z = (gz ? z.substr(0, hdr) : std::string()) + rng.bytes(rng.below(200));
	else while (k--) { size_t p = rng.chance(1, 3) ? z.size() - 1 - rng.below(8) : hdr + rng.below(z.size() - hdr); switch (rng.below(3)) { case 0: z[p] ^= 1 << rng.below(8); break; case 1: z[p] = (char)rng.next(); break; default: if (z.size() > hdr + 12) z.erase(p, 1); break; } }
	bool ok = oracle(z, gz ? 31 : 15, &w, &used); std::string d = fmt("gzip=%d stream ", gz) + hex(z, 150); note(d); R r = decomp(rng, z, gz, &o);
	VF_CHECK((r == OK) == ok, "corrupt-accept", d + (r == OK ? " accepted" : " rejected") + ", zlib says otherwise"); if (ok) VF_CHECK(o == w, "corrupt-content", d); count(ok ? "corrupt-harmless" : "corrupt-detected"); distinct(hashStr(z));
}
VF_PART(oneshot, 6000, 200000)
{
	std::string s = content(rng); int lv = rng.range(-1, 9); size_t bound = compressBound(s.size()); Exact e(s), o(bound); size_t n = cybozu::ZlibCompress(o.p, o.n, e.p, e.n, lv); std::string d = fmt("len=%zu level=%d", s.size(), lv), w; note(d); size_t used; VF_CHECK(n > 0 && n <= bound, "oneshot", d); std::string z(o.p, n); VF_CHECK(oracle(z, 15, &w, &used) && w == s && used == n, "oneshot-standard", d);
	{ Exact b(s.size()), zi(z); VF_CHECK(cybozu::ZlibUncompress(b.p, b.n, zi.p, zi.n) == s.size() && b.str() == s, "uncompress", d); } 
	if (s.size() > 1) { Exact b(s.size() - 1), zi(z); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::ZlibUncompress(b.p, b.n, zi.p, zi.n); }), "uncompress-small", d); }
	{ Exact b(n - 1); VF_EQ(cybozu::ZlibCompress(b.p, b.n, e.p, e.n, lv), 0u, "compress-small", d); } { Exact b(s.size() + 1), zi(z.substr(0, rng.below(n))); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::ZlibUncompress(b.p, b.n, zi.p, zi.n); }), "uncompress-cut", d); } count("oneshot"); distinct(hashStr(z));
	// damaged anywhere, checksum included: the one-shot call says what libz says, with a buffer of exactly the right size
	{ std::string bad = z; size_t p = rng.chance(1, 2) ? bad.size() - 1 - rng.below(4) : rng.below(bad.size()); bad[p] ^= 1 << rng.below(8); Exact zi(bad), b(s.size() + rng.below(2)), b2(b.n); uLongf m = b2.n; int want = ::uncompress((Bytef*)b2.p, &m, (const Bytef*)bad.data(), bad.size()); bool th = false; size_t got = 0; try { got = cybozu::ZlibUncompress(b.p, b.n, zi.p, zi.n); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == (want != Z_OK), "uncompress-damaged", d + fmt(" byte %zu of %zu", p, bad.size())); if (!th) VF_CHECK(got == m && memcmp(b.p, b2.p, m) == 0, "uncompress-damaged-data", d); count(th ? "oneshot-damage-reported" : "oneshot-damage-harmless"); }
	// an output that refuses data is reported, nothing is written past it
	{ size_t lim = rng.below(z.size() + 20); BadOut bo(lim); bool th = false; try { cybozu::ZlibCompressorT<BadOut, 64> c(bo, rng.chance(1, 2)); feed(c, rng, s); c.flush(); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th || bo.o.size() <= lim, "sink", d); count(th ? "sink-error" : "sink-ok"); }
}
