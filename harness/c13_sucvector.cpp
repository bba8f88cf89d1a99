// C13: succinct bit vectors: rank/select/get against prefix sums.
#include <cybozu/sucvector.hpp>
#ifndef VF_BIG
#include <cybozu/csucvector.hpp>
#endif
#include "common.hpp"
using namespace vf;
#ifndef VF_BIG
typedef std::vector<bool> M;
struct Dribble { std::string s; size_t pos = 0; uint64_t r = 1; size_t readSome(void *b, size_t n) { r = mix(r); size_t k = std::min<size_t>(std::min(n, s.size() - pos), 1 + r % 977); memcpy(b, s.data() + pos, k); pos += k; return k; } void write(const void *p, size_t n) { s.append((const char*)p, n); } };
static bool g_long; // vectors of some million bits
static M gen(Rng& g)
{
	size_t n; if (g_long) n = g.chance(1, 5) ? 4300000 + g.below(700000) : 1000000 + g.below(2000000); else switch (g.below(6)) { case 0: n = g.below(70); break; case 1: n = 64 * g.below(12) + g.range(0, 2); break; case 2: n = 256 * (1 + g.below(12)) - g.below(4); break; case 3: n = g.below(3000); break; case 4: n = g.below(9000); break; default: n = g.chance(1, 3) ? 20000 + g.below(30000) : g.below(600); }
	M m(n); switch (g.below(8)) { case 0: break; case 1: m.assign(n, true); break; case 2: { int d = 2 + g.below(60); for (size_t i = 0; i < n; i++) m[i] = g.below(d) == 0; break; } case 3: { int d = 2 + g.below(60); for (size_t i = 0; i < n; i++) m[i] = g.below(d) != 0; break; }
	case 4: for (size_t i = 0; i < n; i++) m[i] = g.next() & 1; break; case 5: { bool b = g.next() & 1; size_t i = 0; while (i < n) { size_t k = g.chance(1, 3) ? 1 + g.below(40) : g.chance(1, 2) ? 64 * (1 + g.below(40)) + g.range(-1, 1) : 1 + g.below(9000); for (size_t j = 0; j < k && i < n; j++) m[i++] = b; b = !b; } break; }
	case 6: { std::vector<bool> w(1 + g.below(90)); for (size_t i = 0; i < w.size(); i++) w[i] = g.next() & 1; for (size_t i = 0; i < n; i++) m[i] = w[i % w.size()]; break; } default: if (n) { m[g.below(n)] = true; m[n - 1] = true; } break; }
	if (g.chance(1, 4) && n) { bool b = g.next() & 1; size_t p = g.below(n), k = std::min(n - p, (size_t)g.below(3000)); for (size_t i = 0; i < k; i++) m[p + i] = b; } return m;
}
static std::string desc(const M& m) { size_t one = 0; for (bool b : m) one += b; return fmt("size=%zu ones=%zu ", m.size(), one); }
static uint64_t mh(const M& m) { uint64_t h = m.size(); size_t i = 0; uint64_t w = 0; for (bool b : m) { w = w * 2 + b; if (++i % 64 == 0) { h = mix(h ^ w); w = 0; } } return mix(h ^ w); }
static std::string raw(const M& m, Rng& g, bool dirty) { std::vector<uint64_t> v((m.size() + 63) / 64); for (size_t i = 0; i < m.size(); i++) if (m[i]) v[i / 64] |= 1ull << (i % 64); if (dirty && m.size() % 64) v.back() |= g.next() << (m.size() % 64); return std::string((const char*)v.data(), v.size() * 8); }
template<class V> static void rankget(const V& v, const M& m, const std::string& d, Rng& g)
{
	size_t r = 0, n = m.size(), step = n > 200000 ? 31 + g.below(60) : n > 4000 ? 1 + g.below(5) : 1; for (size_t i = 0; i <= n; i++) {
		if (i % step == 0 || i + 300 > n || (i % 64 < 2 && (step < 9 || i % 4096 < 2))) { VF_CHECK(v.rank1(i) == r, "rank1", d + fmt(" pos %zu got %llu want %zu", i, (unsigned long long)v.rank1(i), r)); VF_CHECK(v.rank0(i) == i - r && v.rank(true, i) == r && v.rank(false, i) == i - r, "rank", d + fmt(" pos %zu", i)); if (i < n) VF_CHECK(v.get(i) == (bool)m[i], "get", d + fmt(" pos %zu", i)); }
		if (i < n) r += m[i]; }
	VF_CHECK(v.rank1(n + 1 + g.below(1000)) == r, "rank1-beyond", d); VF_CHECK(throws<cybozu::Exception>([&] { v.get(n); }), "get-range", d); count("ranked", n + 1);
}
template<class V> static void sel(const V& v, const M& m, const std::string& d, Rng& g)
{
	size_t c[2] = {0, 0}; VF_EQ(v.size(), m.size(), "size", d); size_t step = m.size() > 200000 ? 31 + g.below(60) : m.size() > 8000 ? 1 + g.below(7) : 1; for (size_t i = 0; i < m.size(); i++) { bool b = m[i]; size_t k = c[b]++; if (k % step == 0 || k % 1024 < 2 || k % 1024 > 1021) { uint64_t p = v.select(b, k); VF_CHECK(p == i, b ? "select1" : "select0", d + fmt(" rank %zu got %llu want %zu", k, (unsigned long long)p, i)); VF_CHECK((b ? v.select1(k) : v.select0(k)) == i, "selectb", d); count("selected"); } }
	for (int b = 0; b < 2; b++) { VF_CHECK(v.size(b) == c[b], "count", d + fmt(" size(%d)=%llu want %zu", b, (unsigned long long)v.size(b), c[b])); VF_CHECK(v.select(b, c[b]) == cybozu::NotFound && v.select(b, c[b] + 1 + g.below(3000)) == cybozu::NotFound, "select-beyond", d + fmt(" b=%d", b)); }
}
template<class V, bool S> static void suc(Rng& g, const char *name)
{
	V v; int rounds = 1 + g.below(3);
	for (int k = 0; k < rounds; k++) {
		M m = gen(g); std::string d = std::string(name) + " " + desc(m) + fmt("round %d", k); note(d); std::string b = raw(m, g, g.chance(1, 2)); int how = g.below(3);
		if (how == 0) { Exact e(b); v.init((const uint64_t*)e.p, m.size()); } else if (how == 1) { Exact e(b); V w((const uint64_t*)e.p, m.size()); v = w; }
		else { v.resize(m.size()); std::vector<size_t> ps; for (size_t i = 0; i < m.size(); i++) if (m[i]) ps.push_back(i); if (g.chance(1, 2)) for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[g.below(i)]); for (size_t p : ps) v.set(p); VF_CHECK(throws<cybozu::Exception>([&] { v.set(m.size()); }), "set-range", d); v.ready(); }
		if (!m.empty()) VF_CHECK(throws<cybozu::Exception>([&] { v.set(0); }), "frozen", d);
		rankget(v, m, d, g); if constexpr (S) sel(v, m, d, g); else VF_CHECK(m.empty() || throws<cybozu::Exception>([&] { v.select1(0); }), "noselect", d);
		if (g.chance(1, 3)) { Dribble s; v.save(s); V w; if (g.chance(1, 2)) { Exact e(raw(gen(g), g, false)); w.init((const uint64_t*)e.p, e.n * 8); } w.load(s); VF_EQ(s.pos, s.s.size(), "load-consume", d); rankget(w, m, d + " loaded", g); if constexpr (S) sel(w, m, d + " loaded", g); if (!m.empty()) VF_CHECK(throws<cybozu::Exception>([&] { w.set(0); }), "frozen-loaded", d); count("loaded");
			Dribble t; t.s = s.s.substr(0, g.below(s.s.size())); V x; VF_CHECK(throws<cybozu::Exception>([&] { x.load(t); }), "load-truncated", d); }
		distinct(mh(m)); if (wantSample()) sample(d);
	}
}
VF_PART(sucvector, 1600, 60000) { switch (idx % 4) { case 0: case 1: suc<cybozu::SucVector, true>(rng, "64"); break; case 2: suc<cybozu::SucVectorLt4G, true>(rng, "32"); break; default: suc<cybozu::SucVectorT<uint64_t, false>, false>(rng, "noselect"); break; } }
VF_PART(csucvector, 700, 25000)
{
	cybozu::CSucVector v; int rounds = 1 + rng.below(3);
	for (int k = 0; k < rounds; k++) {
		M m = gen(rng); std::string d = "compressed " + desc(m) + fmt("round %d", k); note(d); std::string b = raw(m, rng, false); Exact e(b); if (rng.chance(1, 2)) v.init((const uint64_t*)e.p, m.size()); else { cybozu::CSucVector w((const uint64_t*)e.p, m.size()); v = w; }
		rankget(v, m, d, rng); if (rng.chance(1, 2)) { Dribble s; v.save(s); cybozu::CSucVector w; w.load(s); VF_EQ(s.pos, s.s.size(), "c-load-consume", d); rankget(w, m, d + " loaded", rng); count("c-loaded"); } distinct(mh(m)); if (wantSample()) sample(d);
	}
}
VF_PART(longsuc, 16, 400) { g_long = true; if (idx % 3 == 0) suc<cybozu::SucVector, true>(rng, "64"); else suc<cybozu::SucVectorLt4G, true>(rng, "32"); g_long = false; count("long"); }
VF_PART(longcsuc, 16, 400)
{
	cybozu::CSucVector v; for (int k = 0; k < 2; k++) { g_long = k == 0 || rng.chance(1, 2); M m = gen(rng); g_long = false; std::string d = "compressed long " + desc(m); note(d); Exact e(raw(m, rng, false)); v.init((const uint64_t*)e.p, m.size()); rankget(v, m, d, rng); if (idx % 4 == 0) { Dribble s; v.save(s); cybozu::CSucVector w; w.load(s); rankget(w, m, d + " loaded", rng); } distinct(mh(m)); }
}
VF_PART(word, 20000, 1000000)
{
	uint64_t v = rng.chance(1, 3) ? rng.edgy64() : rng.chance(1, 2) ? rng.next() & rng.next() : rng.next() | rng.next(); note(fmt("%016llx", (unsigned long long)v)); int c = 0; for (int i = 0; i < 64; i++) { VF_EQ(cybozu::sucvector_util::rank64(v, i), (uint32_t)c, "rank64", fmt("%016llx %d", (unsigned long long)v, i)); if (v >> i & 1) { c++; VF_EQ(cybozu::sucvector_util::select64(v, c), (uint32_t)i, "select64", fmt("%016llx %d", (unsigned long long)v, c)); } }
	for (int i = c + 1; i <= 64; i++) VF_EQ(cybozu::sucvector_util::select64(v, i), 64u, "select64-none", fmt("%016llx %d", (unsigned long long)v, i)); distinct(v); count("words");
}
#else
// more than 2^32 ones: exercises the wide counters. word k has exactly one zero at bit k % 64
VF_PART(big, 1, 1)
{
	const uint64_t words = (1ull << 26) + (1ull << 22) + 5; uint64_t *p = (uint64_t*)mmap(0, words * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return; for (uint64_t k = 0; k < words; k++) p[k] = ~(1ull << (k % 64));
	uint64_t bits = words * 64 - rng.below(60); cybozu::SucVector v(p, bits); munmap(p, words * 8); VF_EQ(v.size(), bits, "big-size", "");
	auto rank1 = [&](uint64_t pos) { uint64_t k = pos / 64; return k * 63 + pos % 64 - (pos % 64 > k % 64); }; uint64_t ones = rank1(bits), zeros = bits - ones; VF_CHECK(v.size(true) == ones && v.size(false) == zeros, "big-count", fmt("%llu", (unsigned long long)v.size(true)));
	for (int i = 0; i < 400000; i++) { uint64_t pos = rng.chance(1, 3) ? bits - rng.below(1 << 22) : rng.below(bits + 1); VF_CHECK(v.rank1(pos) == rank1(pos) && v.rank0(pos) == pos - rank1(pos), "big-rank", fmt("pos %llu got %llu", (unsigned long long)pos, (unsigned long long)v.rank1(pos))); if (pos < bits) VF_CHECK(v.get(pos) == (pos % 64 != (pos / 64) % 64), "big-get", ""); distinct(pos); count("big-rank"); }
	for (int i = 0; i < 200000; i++) { uint64_t k = rng.chance(1, 3) ? ones - 1 - rng.below(1 << 22) : rng.below(ones), q = k / 63, r = k % 63, want = q * 64 + r + (r >= q % 64); VF_CHECK(v.select1(k) == want, "big-select1", fmt("rank %llu got %llu want %llu", (unsigned long long)k, (unsigned long long)v.select1(k), (unsigned long long)want)); k = rng.below(zeros); VF_CHECK(v.select0(k) == k * 64 + k % 64, "big-select0", fmt("rank %llu", (unsigned long long)k)); count("big-select"); }
	sample(fmt("bits=%llu ones=%llu", (unsigned long long)bits, (unsigned long long)ones));
}
#endif
