// C14: wavelet matrix vs naive counts.
#include <cybozu/wavelet_matrix.hpp>
#include "common.hpp"
using namespace vf;
struct Dribble { std::string s; size_t pos = 0; uint64_t r = 1; size_t readSome(void *b, size_t n) { r = mix(r); size_t k = std::min<size_t>(std::min(n, s.size() - pos), 1 + r % 977); memcpy(b, s.data() + pos, k); pos += k; return k; } void write(const void *p, size_t n) { s.append((const char*)p, n); } };
static size_t g_long; // > 0: long sequences
template<class V> static V gen(Rng& g, size_t bits)
{
	typedef typename V::value_type T; size_t n; if (g_long) n = g_long + g.below(g_long); else switch (g.below(5)) { case 0: n = g.below(10); break; case 1: n = 256 * g.below(6) + g.range(0, 3); break; case 2: n = g.below(400); break; case 3: n = 64 * (1 + g.below(20)) - g.below(3); break; default: n = g.below(3000); } V v(n); uint64_t mx = 1ull << bits; int k = g.below(5); uint64_t a = g.below(mx), b = g.below(mx);
	for (size_t i = 0; i < n; i++) v[i] = (T)(k == 0 ? g.below(mx) : k == 1 ? a : k == 2 ? (g.chance(1, 20) ? b : a) : k == 3 ? g.below(std::min<uint64_t>(mx, 5)) : (g.chance(1, 2) ? mx - 1 - g.below(std::min<uint64_t>(mx, 3)) : i * mx / (n + 1))); return v;
}
template<class WM, class V, bool S> static void verify(const WM& w, const V& v, size_t bits, const std::string& d, Rng& g)
{
	const uint64_t mx = 1ull << bits; VF_EQ(w.size(), v.size(), "size", d); size_t n = v.size(); std::vector<uint32_t> cnt(mx);
	std::vector<uint64_t> probe; for (int i = 0; i < 6; i++) probe.push_back(n && g.chance(2, 3) ? (uint64_t)v[g.below(n)] : g.below(mx)); probe.push_back(0); probe.push_back(mx - 1); std::vector<uint64_t> lt(probe.size()); std::vector<std::vector<size_t>> where(probe.size());
	size_t step = n > 50000 ? 101 + g.below(100) : n > 500 ? 1 + g.below(4) : 1;
	for (size_t i = 0; i <= n; i++) {
		bool q = i % step == 0 || i + 70 > n || (i % 256 < 2 && (step < 9 || i % 16384 < 2)); if (q) for (size_t k = 0; k < probe.size(); k++) { uint64_t r = w.rank(probe[k], i), l = w.rankLt(probe[k], i); VF_CHECK(r == cnt[probe[k]], "rank", d + fmt(" val %llu pos %zu got %llu want %u", (unsigned long long)probe[k], i, (unsigned long long)r, cnt[probe[k]])); VF_CHECK(l == lt[k], "rankLt", d + fmt(" val %llu pos %zu got %llu want %llu", (unsigned long long)probe[k], i, (unsigned long long)l, (unsigned long long)lt[k])); count("rank"); }
		if (i == n) break; uint64_t x = v[i]; if (q) { VF_CHECK(w.get(i) == x, "get", d + fmt(" pos %zu", i)); uint32_t y = ~0u; uint64_t r = w.get(&y, i); VF_CHECK(y == x && r == cnt[x], "get-rank", d + fmt(" pos %zu", i)); count("get"); } cnt[x]++; for (size_t k = 0; k < probe.size(); k++) { if (x < probe[k]) lt[k]++; if (x == probe[k]) where[k].push_back(i); }
	}
	for (size_t k = 0; k < probe.size(); k++) { VF_EQ(w.size(probe[k]), (uint64_t)cnt[probe[k]], "count", d); VF_CHECK(w.rank(probe[k], n + 1 + g.below(99)) == cnt[probe[k]] && w.rankLt(probe[k], n + 5) == lt[k], "rank-beyond", d); }
	if constexpr (S) for (size_t k = 0; k < probe.size(); k++) { for (size_t j = 0; j < where[k].size(); j++) if (j % step == 0 || ((j % 256 < 2 || j % 256 > 253) && (step < 9 || j % 8192 < 256 || j + 256 > where[k].size()))) { VF_CHECK(w.select(probe[k], j) == where[k][j], "select", d + fmt(" val %llu rank %zu got %llu want %zu", (unsigned long long)probe[k], j, (unsigned long long)w.select(probe[k], j), where[k][j])); count("select"); } VF_CHECK(w.select(probe[k], where[k].size()) == cybozu::NotFound && w.select(probe[k], where[k].size() + 1 + g.below(600)) == cybozu::NotFound, "select-beyond", d); }
	else VF_CHECK(throws<cybozu::Exception>([&] { w.select(0, 0); }), "noselect", d);
}
template<class WM, class V, bool S> static void run(Rng& g, const char *nm)
{
	WM w; int rounds = 1 + g.below(3);
	for (int k = 0; k < rounds; k++) {
		size_t mb = sizeof(typename V::value_type) * 8, bits = 1 + g.below(std::min<size_t>(mb, g.chance(1, 12) ? 12 : 8)); V v = gen<V>(g, bits); std::string d = fmt("%s bits=%zu size=%zu round %d", nm, bits, v.size(), k); note(d); w.init(v, bits); verify<WM, V, S>(w, v, bits, d, g);
		if (g.chance(1, 3)) { Dribble s; w.save(s); WM x; if (g.chance(1, 2)) x.init(gen<V>(g, 3), 3); x.load(s); VF_EQ(s.pos, s.s.size(), "load-consume", d); verify<WM, V, S>(x, v, bits, d + " loaded", g); count("loaded"); WM y = x; verify<WM, V, S>(y, v, bits, d + " copied", g); }
		uint64_t h = bits; for (auto x : v) h = mix(h ^ x); distinct(h); if (wantSample()) sample(d);
	}
}
VF_PART(matrix, 1500, 50000)
{
	switch (idx % 4) { case 0: run<cybozu::WaveletMatrix, std::vector<uint8_t>, true>(rng, "u8"); break; case 1: run<cybozu::WaveletMatrixT<false>, std::vector<uint16_t>, false>(rng, "u16 noselect"); break; case 2: run<cybozu::WaveletMatrixT<true, cybozu::SucVector>, std::vector<uint32_t>, true>(rng, "u32 big"); break; default: run<cybozu::WaveletMatrix, std::vector<uint16_t>, true>(rng, "u16"); break; }
}
VF_PART(wide, 8, 40) { size_t bits = 14 + idx % 3; std::vector<uint16_t> v = gen<std::vector<uint16_t>>(rng, bits); std::string d = fmt("wide bits=%zu size=%zu", bits, v.size()); note(d); cybozu::WaveletMatrix w; w.init(v, bits); verify<cybozu::WaveletMatrix, std::vector<uint16_t>, true>(w, v, bits, d, rng); VF_CHECK(throws<cybozu::Exception>([&] { w.init(v, 17); }), "too-wide", d); distinct(rng.next()); count("wide"); }
// long sequences: more occurrences and positions than 16 bits can hold
VF_PART(longseq, 24, 500) { g_long = 40000 << rng.below(4); size_t bits = 1 + rng.below(10); std::vector<uint16_t> v = gen<std::vector<uint16_t>>(rng, bits); g_long = 0; std::string d = fmt("long bits=%zu size=%zu", bits, v.size()); note(d); if (idx % 3 == 0) { cybozu::WaveletMatrixT<true, cybozu::SucVector> w; w.init(v, bits); verify<cybozu::WaveletMatrixT<true, cybozu::SucVector>, std::vector<uint16_t>, true>(w, v, bits, d, rng); } else { cybozu::WaveletMatrix w; w.init(v, bits); verify<cybozu::WaveletMatrix, std::vector<uint16_t>, true>(w, v, bits, d, rng); } distinct(rng.next()); count("long"); }
