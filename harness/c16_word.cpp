// C16: bit scan / population count / masks, byte order access, 128-bit vector lanes.
#include <stdint.h>
#include <string.h>
#include <cybozu/bit_operation.hpp>
#include <cybozu/endian.hpp>
#include <cybozu/v128.hpp>
#include "common.hpp"
using namespace vf;
typedef unsigned __int128 U;
static uint64_t pick(Rng& g) { switch (g.below(7)) { case 0: return 1ull << g.below(64); case 1: return (1ull << g.below(64)) | (1ull << g.below(64)); case 2: return ~0ull >> g.below(64); case 3: return ~0ull << g.below(64); case 4: return g.next() & g.next() & g.next(); case 5: return ((g.next() & 0xff) << 56) | (g.next() & 0xff); default: return g.next(); } }
static int lo(uint64_t x) { for (int i = 0; i < 64; i++) if ((x >> i) & 1) return i; return -1; }
static int hi(uint64_t x) { for (int i = 63; i >= 0; i--) if ((x >> i) & 1) return i; return -1; }
static uint32_t pc(uint64_t x) { uint32_t n = 0; for (int i = 0; i < 64; i++) n += (x >> i) & 1; return n; }
template<class T> static void scan(T x) { if (!x) return; VF_CHECK(cybozu::bsf(x) == lo(x), "bsf", fmt("x=%llx size=%zu got %d", (unsigned long long)x, sizeof(T), cybozu::bsf(x))); VF_CHECK(cybozu::bsr(x) == hi(x), "bsr", fmt("x=%llx size=%zu got %d", (unsigned long long)x, sizeof(T), cybozu::bsr(x))); count("scan"); }
VF_PART(bits, 400000, 3000000)
{
	uint64_t x = pick(rng); distinct(mix(x)); scan<uint64_t>(x); scan<uint32_t>((uint32_t)x); scan<uint32_t>((uint32_t)(x >> 32)); scan<uint16_t>((uint16_t)x); scan<uint8_t>((uint8_t)x); scan<unsigned long long>(x); scan<unsigned long>(x);
	VF_EQ(cybozu::popcnt<uint64_t>(x), pc(x), "popcnt64", fmt("x=%llx", (unsigned long long)x)); VF_EQ(cybozu::popcnt<uint32_t>((uint32_t)x), pc((uint32_t)x), "popcnt32", fmt("x=%x", (uint32_t)x)); count("popcnt");
	unsigned n = rng.below(64); uint64_t m = 0; for (unsigned i = 0; i < n; i++) m |= 1ull << i; VF_EQ(cybozu::makeBitMask64(n), m, "mask", fmt("n=%u", n)); VF_EQ(cybozu::makeBitMask64((int)n), m, "mask", fmt("n=%u", n)); evals();
}
VF_PART(endian, 200000, 2000000)
{
	uint64_t x = pick(rng); size_t off = rng.below(8); Exact b(off + 8); uint8_t *p = (uint8_t *)b.p + off; distinct(mix(x ^ off)); std::string d = fmt("x=%016llx offset=%zu", (unsigned long long)x, off);
	uint8_t le[8], be[8]; for (int i = 0; i < 8; i++) { le[i] = (uint8_t)(x >> (8 * i)); be[i] = (uint8_t)(x >> (56 - 8 * i)); }
	cybozu::Set64bitAsLE(p, x); VF_CHECK(!memcmp(p, le, 8), "set64le", d); VF_CHECK(cybozu::Get64bitAsLE(p) == x, "get64le", d); cybozu::Set64bitAsBE(p, x); VF_CHECK(!memcmp(p, be, 8), "set64be", d); VF_CHECK(cybozu::Get64bitAsBE(p) == x, "get64be", d);
	{ size_t k = rng.below(5); Exact e(off + k + 4); uint8_t *q = (uint8_t *)e.p + off + k; uint32_t y = (uint32_t)x; cybozu::Set32bitAsLE(q, y); VF_CHECK(!memcmp(q, le, 4), "set32le", d); VF_CHECK(cybozu::Get32bitAsLE(q) == y, "get32le", d); cybozu::Set32bitAsBE(q, y); VF_CHECK(!memcmp(q, be + 4, 4), "set32be", d); VF_CHECK(cybozu::Get32bitAsBE(q) == y, "get32be", d); }
	{ Exact e(off + 2); uint8_t *q = (uint8_t *)e.p + off; uint16_t y = (uint16_t)x; cybozu::Set16bitAsLE(q, y); VF_CHECK(!memcmp(q, le, 2), "set16le", d); VF_CHECK(cybozu::Get16bitAsLE(q) == y, "get16le", d); cybozu::Set16bitAsBE(q, y); VF_CHECK(!memcmp(q, be + 6, 2), "set16be", d); VF_CHECK(cybozu::Get16bitAsBE(q) == y, "get16be", d); }
	uint64_t r = 0; for (int i = 0; i < 8; i++) r = (r << 8) | ((x >> (8 * i)) & 0xff); VF_CHECK(cybozu::byteSwap((uint64_t)x) == r && cybozu::byteSwap((uint32_t)x) == (uint32_t)(r >> 32) && cybozu::byteSwap((uint16_t)x) == (uint16_t)(r >> 48), "swap", d); count("endian"); evals();
}
struct L { uint32_t v[4]; U u() const { return ((U)v[3] << 96) | ((U)v[2] << 64) | ((U)v[1] << 32) | v[0]; } bool operator==(const L& o) const { return !memcmp(v, o.v, 16); } uint8_t b(int i) const { return (uint8_t)(v[i / 4] >> (8 * (i % 4))); } uint64_t q(int i) const { return ((uint64_t)v[2 * i + 1] << 32) | v[2 * i]; } };
static L from(U u) { L r; for (int i = 0; i < 4; i++) r.v[i] = (uint32_t)(u >> (32 * i)); return r; }
static L get(const cybozu::V128& x) { L r; x.store_u(r.v); return r; }
static cybozu::V128 V(const L& l) { cybozu::V128 x; x.load_u(l.v); return x; }
static std::string sh(const L& l) { return fmt("%08x:%08x:%08x:%08x", l.v[3], l.v[2], l.v[1], l.v[0]); }
static L rl(Rng& g) { L l; for (int i = 0; i < 4; i++) { uint64_t x = pick(g); l.v[i] = g.chance(1, 2) ? (uint32_t)x : (uint32_t)(x >> 32); } return l; }
#define OP1(name, expr, want) do { L got_ = get(expr); VF_CHECK(got_ == (want), name, d + " got " + sh(got_)); count("lane"); } while (0)
template<int n> static void perN(const L& a, const L& b, const L& c, const std::string& d0)
{
	using namespace cybozu; std::string d = d0 + fmt(" n=%d", n); U x = a.u(), y = b.u(), z = c.u();
	if constexpr (n < 16) { OP1("psrldq", psrldq<n>(V(a)), from(x >> (8 * n))); OP1("pslldq", pslldq<n>(V(a)), from(x << (8 * n)));
		{ L w; uint8_t t[32]; for (int i = 0; i < 16; i++) { t[i] = b.b(i); t[16 + i] = a.b(i); } memcpy(w.v, t + n, 16); OP1("palignr", palignr<n>(V(a), V(b)), w); }
		{ L w = a; ((uint8_t *)w.v)[n] = (uint8_t)y; OP1("pinsrb", pinsrb<n>(V(a), (uint8_t)y), w); }
		{ uint8_t t[48], r[48]; memcpy(t, a.v, 16); memcpy(t + 16, b.v, 16); memcpy(t + 32, c.v, 16); cybozu::V128 p = V(a), q = V(b), s = V(c); rotrByte<n>(p, q, s); for (int i = 0; i < 48; i++) r[i] = t[(i + n) % 48]; L w[3] = { get(p), get(q), get(s) }; VF_CHECK(!memcmp(w, r, 48), "rotrByte", d); rotlByte<n>(p, q, s); w[0] = get(p); w[1] = get(q); w[2] = get(s); VF_CHECK(!memcmp(w, t, 48), "rotlByte", d); count("lane", 2); } }
	if constexpr (n < 4) { VF_CHECK(pextrd<n>(V(a)) == a.v[n], "pextrd", d); L w = a; w.v[n] = b.v[0]; OP1("pinsrd", pinsrd<n>(V(a), b.v[0]), w); count("lane"); }
	{ L w = from(((U)(a.q(1) >> n) << 64) | (a.q(0) >> n)); OP1("psrlq", psrlq<n>(V(a)), w); OP1("psrlq-v", psrlq(V(a), V(from(n))), w); w = from(((U)(a.q(1) << n) << 64) | (a.q(0) << n)); OP1("psllq", psllq<n>(V(a)), w); OP1("psllq-v", psllq(V(a), V(from(n))), w); }
	{ cybozu::V128 t = V(a); t.shrBit<n>(); OP1("shrBit", t, from(x >> n)); t = V(a); t.shlBit<n>(); OP1("shlBit", t, from(x << n)); }
	{ const int k = n * 37 % 256; L w; for (int i = 0; i < 4; i++) w.v[i] = a.v[(k >> (2 * i)) & 3]; OP1("pshufd", pshufd<k>(V(a)), w); }
	(void)z;
}
template<int... n> static void perAll(std::integer_sequence<int, n...>, const L& a, const L& b, const L& c, const std::string& d) { (perN<n>(a, b, c, d), ...); }
VF_PART(lanes, 8000, 120000)
{
	using namespace cybozu; L a = rl(rng), b = rng.chance(1, 4) ? a : rl(rng), c = rl(rng); if (rng.chance(1, 3)) { int i = rng.below(4); b.v[i] = a.v[i]; } std::string d = "a=" + sh(a) + " b=" + sh(b); distinct(hashBytes(a.v, 16) ^ mix(hashBytes(b.v, 16))); if (wantSample()) sample(d);
	perAll(std::make_integer_sequence<int, 64>(), a, b, c, d);
#define MAP(name, expr) do { L w; for (int i = 0; i < 4; i++) { uint32_t x = a.v[i], y = b.v[i]; w.v[i] = (expr); } OP1(#name, name(V(a), V(b)), w); } while (0)
	MAP(paddd, x + y); MAP(psubd, x - y); MAP(pandn, ~x & y); MAP(por, x | y); MAP(pand, x & y); MAP(pxor, x ^ y); MAP(pmaxsd, (int32_t)x > (int32_t)y ? x : y); MAP(pminsd, (int32_t)x < (int32_t)y ? x : y); MAP(pmaxud, x > y ? x : y); MAP(pminud, x < y ? x : y); MAP(pcmpeqd, x == y ? ~0u : 0); MAP(pcmpgtd, (int32_t)x > (int32_t)y ? ~0u : 0);
	OP1("punpckhdq", punpckhdq(V(a), V(b)), (L{ { a.v[2], b.v[2], a.v[3], b.v[3] } })); OP1("punpckldq", punpckldq(V(a), V(b)), (L{ { a.v[0], b.v[0], a.v[1], b.v[1] } })); OP1("unpckhps", unpckhps(V(a), V(b)), (L{ { a.v[2], b.v[2], a.v[3], b.v[3] } })); OP1("unpcklps", unpcklps(V(a), V(b)), (L{ { a.v[0], b.v[0], a.v[1], b.v[1] } })); OP1("punpckhqdq", punpckhqdq(V(a), V(b)), (L{ { a.v[2], a.v[3], b.v[2], b.v[3] } })); OP1("punpcklqdq", punpcklqdq(V(a), V(b)), (L{ { a.v[0], a.v[1], b.v[0], b.v[1] } }));
	{ // a shift count of 64 or more, taken from the whole low quadword, gives zero
		uint64_t k = rng.chance(1, 3) ? rng.below(70) : rng.chance(1, 2) ? ((uint64_t)1 << (6 + rng.below(58))) + rng.below(64) : rng.next(); L n = from(((U)rng.next() << 64) | k); OP1("psrlq-count", psrlq(V(a), V(n)), k > 63 ? from(0) : from(((U)(a.q(1) >> k) << 64) | (a.q(0) >> k))); OP1("psllq-count", psllq(V(a), V(n)), k > 63 ? from(0) : from(((U)(a.q(1) << k) << 64) | (a.q(0) << k))); }
	uint32_t m = 0; for (int i = 0; i < 16; i++) m |= (uint32_t)(a.b(i) >> 7) << i; VF_CHECK(pmovmskb(V(a)) == m, "pmovmskb", d); { L w; uint8_t *q = (uint8_t *)w.v; for (int i = 0; i < 16; i++) q[i] = b.b(i) & 0x80 ? 0 : a.b(b.b(i) & 15); OP1("pshufb", pshufb(V(a), V(b)), w); }
	VF_CHECK(ptest_zf(V(a), V(b)) == ((a.u() & b.u()) == 0), "ptest_zf", d); VF_CHECK(ptest_cf(V(a), V(b)) == ((~a.u() & b.u()) == 0), "ptest_cf", d); { L z = from(a.u() & b.u()), e = from(~a.u()); VF_CHECK(ptest_cf(V(a), V(z)) == 1 && ptest_zf(V(a), V(e)) == 1, "ptest", d); }
	{ L w = from(0); for (int h = 0; h < 2; h++) { uint32_t s = 0; for (int i = 0; i < 8; i++) s += abs((int)a.b(h * 8 + i) - (int)b.b(h * 8 + i)); w.v[2 * h] = s; } OP1("psadbw", psadbw(V(a), V(b)), w); }
	VF_CHECK(movd(V(a)) == a.v[0] && movq(V(a)) == a.q(0), "movd", d); OP1("zero", Zero(), from(0)); { cybozu::V128 t(a.v[3], a.v[2], a.v[1], a.v[0]); OP1("ctor", t, a); t.set(b.v[3], b.v[2], b.v[1], b.v[0]); OP1("set4", t, b); t.set(a.v[2]); OP1("set1", t, (L{ { a.v[2], a.v[2], a.v[2], a.v[2] } })); t.clear(); OP1("clear", t, from(0)); cybozu::V128 s(t); s = V(a); OP1("assign", s, a); }
	{ alignas(16) uint32_t buf[12]; for (int o = 0; o <= 8; o++) { uint32_t *volatile pp = buf + o; memset(buf, 0x5a, sizeof(buf)); memcpy(buf + o, b.v, 16); cybozu::V128 t; t.load_u(pp); OP1("load_u", t, b); V(a).store_u(pp); VF_CHECK(!memcmp(buf + o, a.v, 16), "store_u", d); bool rest = true; for (int i = 0; i < 12; i++) if (i < o || i >= o + 4) rest &= buf[i] == 0x5a5a5a5au; VF_CHECK(rest, "store_u-outside", d); } }
	alignas(16) uint32_t p[4], q[4]; V(a).store(p); V(b).store(q); VF_CHECK(!memcmp(p, a.v, 16) && !memcmp(q, b.v, 16), "store", d); swap128(p, q); VF_CHECK(!memcmp(p, b.v, 16) && !memcmp(q, a.v, 16), "swap128", d); copy128(p, q); VF_CHECK(!memcmp(p, a.v, 16), "copy128", d); { cybozu::V128 t(q), s; s.load(q); OP1("load", s, a); OP1("ctor-p", t, a); }
	evals();
}
