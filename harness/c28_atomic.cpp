// C28: AtomicAdd/AtomicCompareExchange/AtomicExchange/mfence: linearizability of recorded histories, conservation laws, publication under TSan, store-buffer litmus.
#include <stdint.h>
#include <string.h>
#include <thread>
#include "common.hpp"
#include <cybozu/atomic.hpp>
using namespace vf;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
struct Gate { std::atomic<int> n{ 0 }; void arrive(int k) { n.fetch_add(1); while (n.load(std::memory_order_relaxed) < k) {} } };
static std::atomic<uint64_t> clk(1);
template<class T> struct Op { int kind; T a, b, ret; uint64_t s, e; };
// Wing & Gong search with memo on (mask, value)
template<class T> struct Lin { std::vector<Op<T>> h; std::set<std::pair<uint64_t, T>> bad;
	bool go(uint64_t mask, T v) { if (mask == (1ull << h.size()) - 1) return true; if (bad.count({ mask, v })) return false; uint64_t minE = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!(mask >> i & 1)) minE = std::min(minE, h[i].e); for (size_t i = 0; i < h.size(); i++) if (!(mask >> i & 1) && h[i].s <= minE && h[i].ret == v) { const Op<T>& o = h[i]; T n = o.kind == 0 ? (T)(v + o.a) : o.kind == 1 ? (v == o.b ? o.a : v) : o.a; if (go(mask | 1ull << i, n)) return true; } bad.insert({ mask, v }); return false; } };
template<class T> static void history(Rng& rng, const char *tn)
{
	struct { T before, x, after; } cell; T guard = (T)rng.next(); cell.before = cell.after = guard; int T_ = 2 + rng.below(3), N = 3 + rng.below(5); T init = (T)rng.below(3); cell.x = init; uint64_t seed = rng.next(); Gate gate; std::vector<std::vector<Op<T>>> logs(T_); std::vector<std::thread> v; bool wide = rng.chance(1, 3);
	for (int t = 0; t < T_; t++) v.emplace_back([&, t] { Rng g(seed + t); auto val = [&]() -> T { return wide ? (T)(g.edgy64() & ~0ull) : (T)g.below(3); }; std::vector<Op<T>> l; l.reserve(N); gate.arrive(T_); for (int i = 0; i < N; i++) { Op<T> o; o.kind = g.below(3); o.a = o.kind == 0 && !wide ? (T)(g.below(3) - 1) : val(); o.b = g.below(3) && !l.empty() ? l.back().ret : val(); o.s = clk.fetch_add(1); o.ret = o.kind == 0 ? cybozu::AtomicAdd<T>(&cell.x, o.a) : o.kind == 1 ? cybozu::AtomicCompareExchange<T>(&cell.x, o.a, o.b) : cybozu::AtomicExchange<T>(&cell.x, o.a); o.e = clk.fetch_add(1); l.push_back(o); if (g.chance(1, 8)) sched_yield(); } logs[t] = l; });
	for (auto& t : v) t.join(); Lin<T> L; std::string d = tn; uint64_t ov = 0, hh = 0; for (auto& l : logs) for (auto& o : l) { L.h.push_back(o); } Op<T> fin = { 0, 0, 0, cell.x, clk.fetch_add(1), clk.fetch_add(1) }; L.h.push_back(fin); std::sort(L.h.begin(), L.h.end(), [](const Op<T>& a, const Op<T>& b) { return a.s < b.s; }); for (size_t i = 0; i < L.h.size(); i++) { auto& o = L.h[i]; if (i && o.s < L.h[i - 1].e) ov++; hh = mix(hh ^ o.s - L.h[0].s ^ (uint64_t)o.ret << 8 ^ o.kind); d += fmt(" %c(%lld,%lld)=%lld@%llu-%llu", "ACX"[o.kind], (long long)o.a, (long long)o.b, (long long)o.ret, (unsigned long long)(o.s - L.h[0].s), (unsigned long long)(o.e - L.h[0].s)); }
	VF_CHECK(L.go(0, init), "linearizability", fmt("init %lld ", (long long)init) + d); VF_CHECK(cell.before == guard && cell.after == guard, "neighbour", d); count("ops", L.h.size()); count("overlaps", ov); if (ov) distinct(hh); if (wantSample()) sample(d.substr(0, 300)); evals();
}
VF_IOPART(history, 2400, 80000, 30) { switch (idx % 4) { case 0: history<int>(rng, "int"); break; case 1: history<uint32_t>(rng, "uint32"); break; case 2: history<int64_t>(rng, "int64"); break; default: history<uint64_t>(rng, "uint64"); } }
template<class T> static void conserve(Rng& rng)
{
	int T_ = 2 + rng.below(6), N = 500 + rng.below(2000); T x = 0, step = (T)1; std::vector<std::vector<T>> got(T_); std::vector<std::thread> v; int kind = rng.below(3); Gate gate; std::string d = fmt("kind %d size %zu threads %d x %d", kind, sizeof(T), T_, N);
	std::vector<uint64_t> succ(T_, 0); for (int t = 0; t < T_; t++) v.emplace_back([&, t] { std::vector<T> l; l.reserve(N); uint64_t s = 0; gate.arrive(T_); for (int i = 0; i < N; i++) { if (kind == 0) l.push_back(cybozu::AtomicAdd<T>(&x, step)); else if (kind == 1) l.push_back(cybozu::AtomicExchange<T>(&x, (T)(1 + t * N + i))); else { T o = cybozu::AtomicAdd<T>(&x, 0); for (;;) { T r = cybozu::AtomicCompareExchange<T>(&x, (T)(o + 1), o); if (r == o) { s++; break; } o = r; } l.push_back(o); } } got[t].swap(l); succ[t] = s; });
	for (auto& t : v) t.join(); std::vector<T> all; for (auto& l : got) all.insert(all.end(), l.begin(), l.end()); all.push_back(x); std::sort(all.begin(), all.end()); bool ok = all.size() == (size_t)T_ * N + 1; for (size_t i = 0; ok && i < all.size(); i++) ok = all[i] == (T)i; VF_CHECK(ok, "conservation", d); if (kind != 1) { bool mono = true; for (auto& l : got) for (size_t i = 1; i < l.size(); i++) mono &= l[i - 1] < l[i]; VF_CHECK(mono, "monotone", d); } uint64_t sw = 0; for (auto& l : got) for (size_t i = 1; i < l.size(); i++) sw += l[i] != (T)(l[i - 1] + 1); count("conserved", all.size()); count("interleavings", sw); if (sw) distinct(mix(sw)); evals();
}
VF_IOPART(conserve, 120, 4000, 30) { if (idx & 1) conserve<uint32_t>(rng); else conserve<int64_t>(rng); }
// publication: what is written before an atomic operation is visible to whoever sees its result (TSan checks the happens-before edge; values checked in every build)
template<class T> static void publish(Rng& rng, int how)
{
	int N = 200 + rng.below(400); struct Node { uint64_t a, b; }; std::vector<Node> nodes(N + 1); T slot = 0; uint64_t bad = 0, seen = 0; std::string d = fmt("publish %d size %d", how, (int)sizeof(T));
	std::thread cons([&] { T last = 0; while (last < (T)N) { T k; if (how == 0) { k = cybozu::AtomicExchange<T>(&slot, 0); if (!k) continue; } else { k = how == 1 ? cybozu::AtomicAdd<T>(&slot, 0) : cybozu::AtomicCompareExchange<T>(&slot, 0, 0); if (k == last) continue; } last = k; seen++; if (nodes[k].a != (uint64_t)k || nodes[k].b != mix(k)) bad++; } });
	for (int i = 1; i <= N; i++) { nodes[i].a = i; nodes[i].b = mix(i); if (how == 0) cybozu::AtomicExchange<T>(&slot, (T)i); else if (how == 1) cybozu::AtomicAdd<T>(&slot, 1); else cybozu::AtomicCompareExchange<T>(&slot, (T)i, (T)(i - 1)); if (rng.chance(1, 5)) sched_yield(); } cons.join(); VF_EQ(bad, (uint64_t)0, "publication", d); count("published", seen); distinct(mix(seen * 3 + how)); evals();
}
VF_IOPART(publish, 168, 4000, 30) { int how = (int)(idx % 3); switch (idx / 3 % 4) { case 0: publish<int>(rng, how); break; case 1: publish<uint64_t>(rng, how); break; case 2: publish<uint32_t>(rng, how); break; default: publish<int64_t>(rng, how); } }
#ifndef VF_TSAN
// store-buffer litmus: with mfence between the store and the load, both threads cannot read 0
VF_IOPART(fence, 32, 600, 30)
{
	const int N = 30000; struct alignas(64) Cell { std::atomic<int> v{ 0 }; }; std::vector<Cell> x(N), y(N); std::vector<unsigned char> r1(N), r2(N); std::atomic<int> c(0); int skew = rng.below(60);
	auto body = [&](bool first) { auto& mine = first ? x : y; auto& other = first ? y : x; auto& r = first ? r1 : r2; for (int i = 0; i < N; i++) { c.fetch_add(1); int spin = 0; while (c.load(std::memory_order_relaxed) < 2 * (i + 1)) if (++spin > 20000) { sched_yield(); spin = 0; } if (first) for (volatile int k = 0; k < (i * 7) % (skew + 1); k++) {} mine[i].v.store(1, std::memory_order_relaxed); cybozu::mfence(); r[i] = other[i].v.load(std::memory_order_relaxed); } };
	std::thread t([&] { body(true); }); body(false); t.join(); uint64_t both = 0, k[4] = {}; for (int i = 0; i < N; i++) { k[r1[i] * 2 + r2[i]]++; both += !r1[i] && !r2[i]; } VF_EQ(both, (uint64_t)0, "store-load-order", fmt("skew %d: 00 %llu 01 %llu 10 %llu 11 %llu", skew, (unsigned long long)k[0], (unsigned long long)k[1], (unsigned long long)k[2], (unsigned long long)k[3])); count("fence-01", k[1]); count("fence-10", k[2]); count("fence-11", k[3]); distinct(mix(k[1] * 1000003 + k[2])); evals();
}
#endif
