// C20: pseudo random generators vs their published recurrences, OS random reads with short/failed reads injected, shuffles.
#include <stdint.h>
#include <stdio.h>
#include <cstdio>
#include <cstdlib>
#include <string.h>
#include <math.h>
#include "common.hpp"
static size_t g_req, g_reads; static long g_limit = -1;
static size_t my_fread(void *p, size_t a, size_t n, FILE *fp) { g_req = a * n; g_reads++; if (a && n > (size_t(1) << 62) / a) { vf::report("os-size", vf::fmt("fread asked for %zu*%zu bytes", a, n)); return 0; } if (g_limit >= 0 && a * n > (size_t)g_limit) { size_t m = (size_t)g_limit; return fread(p, 1, m, fp); } if (a * n > (size_t(1) << 28)) return n; return fread(p, a, n, fp); }
static bool g_failOpen; static FILE *my_fopen(const char *n, const char *m) { return g_failOpen ? 0 : fopen(n, m); }
namespace std { using ::my_fread; using ::my_fopen; }
#define fread my_fread
#define fopen my_fopen
#include <cybozu/random_generator.hpp>
#undef fread
#undef fopen
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/nlp/random.hpp>
using namespace vf;
static uint64_t rotl(uint64_t x, int k) { return x << k | x >> (64 - k); }
struct RX { uint32_t x, y, z, w; RX(uint32_t a, uint32_t b, uint32_t c, uint32_t d) : x(a ? a : 123456789), y(b ? b : 362436069), z(c ? c : 521288629), w(d ? d : 88675123) {} uint32_t g32() { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; w = w ^ (w >> 19) ^ t ^ (t >> 8); return w; } uint64_t g64() { uint64_t a = g32(); return a << 32 | g32(); } uint64_t unit() { return g32(); } enum { U = 4 }; };
struct R128 { uint64_t a, b; R128(uint64_t x, uint64_t y) : a(x), b(y) {} uint64_t g64() { uint64_t t = a; const uint64_t s0 = b; a = s0; t ^= t << 23; b = t ^ s0 ^ (t >> 18) ^ (s0 >> 5); return b + s0; } uint32_t g32() { return (uint32_t)g64(); } uint64_t unit() { return g64(); } enum { U = 8 }; };
struct RXO { uint64_t a, b; RXO(uint64_t x, uint64_t y) : a(x), b(y) {} uint64_t g64() { uint64_t r = a + b, t = a ^ b; a = rotl(a, 55) ^ t ^ (t << 14); b = rotl(t, 36); return r; } uint32_t g32() { return (uint32_t)g64(); } uint64_t unit() { return g64(); } enum { U = 8 }; };
struct RPCG { uint64_t s; explicit RPCG(uint64_t x) : s(x) {} uint32_t g32() { uint64_t o = s; s = o * 6364136223846793005ull + 0x6d; uint32_t x = (uint32_t)(((o >> 18) ^ o) >> 27), r = (uint32_t)(o >> 59); return r ? x >> r | x << (32 - r) : x; } uint64_t g64() { uint64_t a = g32(); return a << 32 | g32(); } };
template<class M> static std::string refRead(M& m, size_t n) { std::string s; while (s.size() < n) { uint64_t v = m.unit(); for (int i = 0; i < M::U && s.size() < n; i++) s += (char)(v >> (8 * i)); } return s; }
template<class T, class G> static std::string rd(Rng& g, G& gen, size_t cnt) { Exact e(cnt * sizeof(T)); T *p = (T *)e.p; if (g.chance(1, 2)) { bool b = false; gen.read(&b, p, cnt); VF_CHECK(b, "read-ok", ""); } else { size_t r = gen.read(p, cnt); VF_CHECK(r == cnt, "read-ret", fmt("%zu of %zu", r, cnt)); } return e.str(); }
template<class G, class M> static void stream(Rng& g, G& gen, M& m, const std::string& d)
{
	for (int i = 1 + g.below(25); i > 0; i--) {
		switch (g.below(6)) { case 0: VF_EQ(gen.get32(), m.g32(), "get32", d); break; case 1: VF_EQ(gen.get64(), m.g64(), "get64", d); break; case 2: { uint64_t v = gen(); VF_EQ(v, (uint64_t)m.unit(), "call", d); break; }
		case 3: { size_t n = g.below(40); VF_EQ(rd<uint8_t>(g, gen, n), refRead(m, n), "read8", d + fmt(" n=%zu", n)); break; } case 4: { size_t n = g.below(20); VF_EQ(rd<uint32_t>(g, gen, n), refRead(m, n * 4), "read32", d + fmt(" n=%zu", n)); break; } default: { size_t n = g.below(9); VF_EQ(rd<uint64_t>(g, gen, n), refRead(m, n * 8), "read64", d + fmt(" n=%zu", n)); } } count("stream"); evals();
	}
}
VF_PART(prng, 20000, 600000)
{
	uint64_t s0 = rng.chance(1, 5) ? rng.below(3) : rng.next(), s1 = rng.chance(1, 5) ? rng.below(3) : rng.next(); std::string d = fmt("kind %d seeds %llx %llx", (int)(idx % 4), (unsigned long long)s0, (unsigned long long)s1); distinct(s0 ^ mix(s1) ^ idx % 4); if (wantSample()) sample(d);
	switch (idx % 4) {
	case 0: { uint32_t a[4]; for (auto& x : a) x = rng.chance(1, 3) ? 0 : (uint32_t)rng.next(); cybozu::XorShift g(a[0], a[1], a[2], a[3]); RX m(a[0], a[1], a[2], a[3]); stream(rng, g, m, d); cybozu::XorShift c(g); RX mc(m); stream(rng, g, m, d); stream(rng, c, mc, d + " copy"); g.init(a[1]); RX m2(a[1], 0, 0, 0); stream(rng, g, m2, d + " init"); g.init(); RX m3(0, 0, 0, 0); stream(rng, g, m3, d + " init"); break; }
	case 1: { cybozu::XorShift128Plus g(s0, s1); R128 m(s0, s1); stream(rng, g, m, d); cybozu::XorShift128Plus c(g); R128 mc(m); stream(rng, c, mc, d); g.init(); R128 m2(123456789, 987654321); stream(rng, g, m2, d + " init"); g.init(s1, s0); R128 m3(s1, s0); stream(rng, g, m3, d); break; }
	case 2: { cybozu::Xoroshiro128Plus g(s0, s1); RXO m(s0, s1); stream(rng, g, m, d); cybozu::Xoroshiro128Plus c(g); RXO mc(m); stream(rng, c, mc, d); g.init(); RXO m2(123456789, 987654321); stream(rng, g, m2, d + " init"); break; }
	default: { cybozu::Pcg32 g(s0); RPCG m(s0); for (int i = 0; i < 20; i++) { switch (rng.below(6)) { case 0: VF_EQ(g.get32(), m.g32(), "pcg32", d); break; case 1: VF_EQ(g.get64(), m.g64(), "pcg64", d); break; case 2: VF_EQ(g(), m.g32(), "pcg()", d); break; case 3: { size_t n = rng.below(9); Exact e(n * 4); g.read((uint32_t *)e.p, n); std::string w; for (size_t j = 0; j < n; j++) { uint32_t v = m.g32(); w.append((char *)&v, 4); } VF_EQ(e.str(), w, "pcg-read32", d); break; } case 4: { size_t n = rng.below(9); Exact e(n * 8); g.read((uint64_t *)e.p, n); std::string w; for (size_t j = 0; j < n; j++) { uint64_t v = m.g64(); w.append((char *)&v, 8); } VF_EQ(e.str(), w, "pcg-read64", d); break; } default: { size_t n = rng.below(9); std::string w; for (size_t j = 0; j < n * 2; j++) w += (char)m.g32(); Exact e(n * 2); g.read((uint16_t *)e.p, n); VF_EQ(e.str(), w, "pcg-read16", d); } } count("pcg"); evals(); } }
	}
}
VF_PART(nlp, 300, 5000)
{
	double a = (double)rng.range(-1000, 1000) / 7, b = a + (double)(1 + rng.below(100000)) / 100; int seed = (int)rng.next(); std::string d = fmt("a=%g b=%g seed=%d", a, b, seed); cybozu::nlp::UniformRandomGenerator u(a, b, seed), u2(a, b, seed); double sum = 0; const int N = 4000; int bin[8] = {}; for (int i = 0; i < 20; i++) u.getDouble(), u2.getDouble(); for (int i = 0; i < N; i++) { double x = u.getDouble(); VF_CHECK(x == u2.getDouble(), "repeat", d); VF_CHECK(a <= x && x <= b, "range", d + fmt(" %g", x)); sum += x; int k = (int)((x - a) / (b - a) * 8); bin[k > 7 ? 7 : k]++; }
	for (int k = 0; k < 8; k++) VF_CHECK(fabs(bin[k] - N / 8.0) < 8 * sqrt(N / 8.0), "uniform", d + fmt(" bin %d has %d of %d", k, bin[k], N)); count("uniform"); { cybozu::nlp::UniformRandomGenerator z; u.init(); u2.init(0); for (int i = 0; i < 4; i++) { uint32_t w = z.get32(); VF_CHECK(u.get32() == w && u2() == w, "init-default", d); } } u.init(seed); u2.init(seed); VF_CHECK(u.getDouble() == u2.getDouble() && u.get32() == u2.get32() && u.get64() == u2.get64() && u() == u2(), "init", d);
	double mu = a, s = 1 + (double)rng.below(1000) / 10; if (idx % 3 == 0) seed = (int)rng.below(50); cybozu::nlp::NormalRandomGenerator n(mu, s, seed), n2(mu, s, 0); n2.init(seed); sum = 0; double sq = 0; for (int i = 0; i < 20; i++) { VF_CHECK(n.get() == n2.get(), "normal-repeat", d); } for (int i = 0; i < N; i++) { double x = n.get(); VF_CHECK(fabs(x - mu) <= 6 * s * (1 + 1e-9), "normal-range", d + fmt(" %g", x)); sum += x; sq += (x - mu) * (x - mu); } double mean = sum / N, sd = sqrt(sq / N); VF_CHECK(fabs(mean - mu) < 8 * s / sqrt((double)N), "normal-mean", d + fmt(" mean %g", mean)); VF_CHECK(fabs(sd / s - 1) < 0.12, "normal-sd", d + fmt(" sd/s %g", sd / s)); count("normal"); evals(); distinct(mix(seed));
}
#ifdef CYBOZU_DONT_USE_EXCEPTION
VF_PART(osrandom_noexc, 400, 6000)
{
	size_t n = 1 + rng.below(300); Exact e(n * 4), o(n * 4); std::string d = fmt("n=%zu", n); g_limit = -1; { cybozu::RandomGenerator g; for (int i = 0; i < 24; i++) { memset(o.p, 0, o.n); bool b = false; g.read(&b, (uint32_t *)o.p, n); VF_CHECK(b, "os-ok", d); for (size_t j = 0; j < o.n; j++) if (i == 0) e.p[j] = o.p[j]; else e.p[j] |= o.p[j]; } size_t zero = 0; for (size_t j = 0; j < e.n; j++) zero += e.p[j] == 0; VF_CHECK(zero == 0, "os-filled", d);
		g_limit = (long)rng.below(n * 4); bool b = true; g.read(&b, (uint32_t *)o.p, n); VF_CHECK(!b, "os-short", d); g_limit = -1; g.read(&b, (uint32_t *)o.p, n); VF_CHECK(b, "os-recovers", d); }
	g_failOpen = true; { cybozu::RandomGenerator g; bool b = true; memset(o.p, 9, o.n); g.read(&b, (uint32_t *)o.p, n); VF_CHECK(!b, "os-open", d); for (size_t j = 0; j < o.n; j++) VF_CHECK(o.p[j] == 9, "os-open-writes", d); } g_failOpen = false; count("os-noexc"); evals(); distinct(n);
}
#else
VF_PART(osrandom, 400, 6000)
{
	cybozu::RandomGenerator g; size_t n = 1 + rng.below(300); Exact e(n * 4), o(n * 4); g_limit = -1; for (int i = 0; i < 24; i++) { memset(o.p, 0, o.n); if (i & 1) g.read((uint32_t *)o.p, n); else { bool b = false; g.read(&b, (uint32_t *)o.p, n); VF_CHECK(b, "os-ok", ""); } for (size_t j = 0; j < o.n; j++) if (i == 0) e.p[j] = o.p[j]; else e.p[j] |= o.p[j]; } VF_EQ(g_req, n * 4, "os-bytes", fmt("n=%zu", n)); size_t zero = 0; for (size_t j = 0; j < e.n; j++) zero += e.p[j] == 0; VF_CHECK(zero == 0, "os-filled", fmt("%zu of %zu bytes never written", zero, e.n)); VF_CHECK(g.get64() != g.get64() || g.get64() != g.get64(), "os-varies", ""); uint32_t q = 0; for (int i = 0; i < 64; i++) q |= g.get32() | g(); VF_EQ(q, ~0u, "os-bits", ""); count("os-read");
	g_limit = (long)rng.below(n * 4); bool b = true; g.read(&b, (uint32_t *)o.p, n); VF_CHECK(!b, "os-short", fmt("limit %ld of %zu", g_limit, n * 4)); VF_CHECK(throws<cybozu::Exception>([&] { g.read((uint32_t *)o.p, n); }), "os-short-throw", ""); g_limit = 0; VF_CHECK(throws<cybozu::Exception>([&] { g.get32(); }) && throws<cybozu::Exception>([&] { g.get64(); }), "os-short-get", ""); g_limit = -1; g.get32(); count("os-short");
	{ static char dummy; size_t big = (size_t(1) << 31) + rng.below(1 << 20) * 4096 + (idx % 2 ? size_t(1) << 32 : 0); b = false; g.read(&b, &dummy, big); VF_CHECK(g_req == big && b, "os-big", fmt("asked %zu requested %zu", big, g_req)); count("os-big"); }
	g_failOpen = true; VF_CHECK(throws<cybozu::Exception>([&] { cybozu::RandomGenerator x; }), "os-open", ""); g_failOpen = false; evals(); distinct(n + 77);
}
#endif
struct ScriptSeq { std::vector<uint64_t> v; size_t i = 0; uint64_t get64() { return v[i++ % v.size()]; } };
VF_PART(shuffle, 3000, 60000)
{
	size_t n = rng.below(60); std::vector<int> v(n), w; for (size_t i = 0; i < n; i++) v[i] = (int)rng.below(40); w = v; ScriptSeq q; for (int i = 0; i < 7; i++) q.v.push_back(rng.chance(1, 3) ? rng.edgy64() : rng.next()); Exact e(n * sizeof(int)); if (n) memcpy(e.p, v.data(), n * 4); cybozu::shuffle((int *)e.p, n, q); std::vector<int> x((int *)e.p, (int *)e.p + n); q.i = 0; cybozu::shuffle(w, q); VF_CHECK(x == w, "shuffle-same", ""); std::sort(x.begin(), x.end()); std::sort(v.begin(), v.end()); VF_CHECK(x == v, "shuffle-permutation", fmt("n=%zu", n)); count("shuffle"); evals(); uint64_t h = 1; for (int y : w) h = mix(h ^ y); distinct(h);
	if (idx % 400 == 7) { // long arrays: any place can receive any element
		size_t L = 70000 + rng.below(600000); cybozu::XorShift128Plus g(rng.next(), rng.next() | 1); for (int i = 0; i < 20; i++) g.get64(); std::vector<uint32_t> p(L); for (size_t i = 0; i < L; i++) p[i] = (uint32_t)i; cybozu::shuffle(p, g); int hi = 0; for (int i = 0; i < 2000; i++) hi += p[i] >= L / 2; VF_CHECK(hi > 760 && hi < 1240, "shuffle-far", fmt("n=%zu: %d of the first 2000 come from the upper half", L, hi)); hi = 0; for (int i = 0; i < 2000; i++) hi += p[L - 1 - i] >= L / 2; VF_CHECK(hi > 760 && hi < 1240, "shuffle-far-back", fmt("n=%zu: %d of the last 2000 come from the upper half", L, hi)); std::vector<char> seen(L); for (uint32_t x : p) { VF_CHECK(x < L && !seen[x], "shuffle-long-permutation", fmt("n=%zu", L)); seen[x] = 1; } count("shuffle-long"); }
	if (idx % 100 == 0) { // every permutation of 4 elements is about equally frequent
		cybozu::XorShift128Plus g(rng.next(), rng.next() | 1); for (int i = 0; i < 20; i++) g.get64(); const int N = 24000; int cnt[256] = {}; for (int k = 0; k < N; k++) { std::vector<int> p = { 0, 1, 2, 3 }; cybozu::shuffle(p, g); cnt[p[0] << 6 | p[1] << 4 | p[2] << 2 | p[3]]++; } int nz = 0; for (int k = 0; k < 256; k++) if (cnt[k]) { nz++; VF_CHECK(abs(cnt[k] - N / 24) < 8 * 32, "shuffle-uniform", fmt("permutation %d count %d", k, cnt[k])); } VF_EQ(nz, 24, "shuffle-all", ""); count("shuffle-uniform"); }
}
