// C30: parallel_for - every index exactly once, thread ids, completion before return, early stop, exceptions, failing thread creation.
#include <stdint.h>
#include <string.h>
#include <thread>
#include <limits>
#include <stdexcept>
#include "common.hpp"
#include <cybozu/parallel.hpp>
using namespace vf;
static std::atomic<int> failAfter(-1), created(0), joined(0), detached(0);
extern "C" { int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __real_pthread_join(pthread_t, void **); int __real_pthread_detach(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { int k = failAfter; if (k == 0) { *t = (pthread_t)0x5151515151; return EAGAIN; } if (k > 0) failAfter = k - 1; int r = __real_pthread_create(t, a, f, x); if (r == 0) created++; return r; }
int __wrap_pthread_join(pthread_t t, void **r) { if (t == (pthread_t)0x5151515151) { vf::report("join-of-no-thread", "pthread_join called with the handle of a failed creation"); return ESRCH; } int e = __real_pthread_join(t, r); if (e == 0) joined++; return e; }
int __wrap_pthread_detach(pthread_t t) { if (t == (pthread_t)0x5151515151) { vf::report("detach-of-no-thread", "pthread_detach called with the handle of a failed creation"); return ESRCH; } int e = __real_pthread_detach(t); if (e == 0) detached++; return e; } }
struct MyErr { int a; };
enum Kind { Run, Stop, ThrowStd, ThrowEmpty, ThrowOther, ThrowCyb };
// records the calls without synchronisation between the workers, so the race detector sees what parallel_for itself orders
template<class N> struct Work {
	struct Ev { uint64_t i; };
	std::vector<std::vector<Ev>> log; std::vector<int> busy; std::vector<uint8_t> done; std::vector<Kind> act; std::atomic<int> overlap{ 0 }, outside{ 0 }, entered{ 0 }, left{ 0 }; uint64_t seed; size_t T; std::string text;
	std::vector<std::atomic<int>> in;
	Work(size_t n, size_t T, uint64_t seed) : log(T), busy(T), done(n), act(n, Run), seed(seed), T(T), in(T) { for (auto& x : in) x = 0; }
	struct Guard { Work *w; size_t t; ~Guard() { w->in[t].fetch_sub(1, std::memory_order_relaxed); w->left.fetch_add(1, std::memory_order_relaxed); } };
	bool operator()(N i, size_t t)
	{
		entered.fetch_add(1, std::memory_order_relaxed);
		if (t >= T || (uint64_t)i >= done.size()) { outside.fetch_add(1, std::memory_order_relaxed); left.fetch_add(1, std::memory_order_relaxed); return true; }
		if (in[t].fetch_add(1, std::memory_order_relaxed) != 0) overlap.fetch_add(1, std::memory_order_relaxed);
		Guard g{ this, t }; log[t].push_back(Ev{ (uint64_t)i }); done[i]++;
		uint64_t r = mix(seed + i); if (r % 7 == 0) sched_yield(); else if (r % 97 == 0) usleep(r / 97 % 80);
		switch (act[i]) { case Run: return true; case Stop: return false; case ThrowStd: throw std::runtime_error(text + fmt("-%llu", (unsigned long long)i)); case ThrowEmpty: throw std::runtime_error(""); case ThrowOther: throw MyErr{ 3 }; default: throw cybozu::Exception("mine") << (int)i; }
	}
};
template<class N> static void one(Rng& rng, const char *tn, uint64_t maxN, int maxT)
{
	uint64_t n = rng.chance(1, 8) ? 0 : rng.chance(1, 3) ? 1 + rng.below(12) : 1 + rng.below(rng.chance(1, 6) ? 3000 : 200); n = std::min(n, maxN); uint64_t T = rng.chance(1, 12) ? 0 : rng.chance(1, 4) ? 1 + rng.below(3) : 1 + rng.below(maxT); if (rng.chance(1, 10) && n) T = n; if (T > 40) T = 40; T = std::min(T, maxN);
	size_t eff = std::min<uint64_t>(n, T); Work<N> w(n, eff, rng.next()); w.text = fmt("boom%d", (int)rng.below(1000)); int nAct = n && rng.chance(1, 2) ? 1 + rng.below(3) : 0; std::string d = fmt("%s n %llu threads %llu", tn, (unsigned long long)n, (unsigned long long)T); for (int k = 0; k < nAct; k++) { uint64_t i = rng.chance(1, 4) ? n - 1 : rng.below(n); w.act[i] = (Kind)(1 + rng.below(5)); d += fmt(" act %d at %llu", w.act[i], (unsigned long long)i); }
	int fa = rng.chance(1, 6) && eff ? (int)rng.below(eff) : -1; if (fa >= 0) d += fmt(" create fails at %d", fa); note(d);
	int c0 = created, j0 = joined, d0 = detached; failAfter = fa; bool thrown = false, other = false; std::string what;
	try { cybozu::parallel_for(w, (N)n, (N)T); } catch (cybozu::Exception& e) { thrown = true; what = e.what(); } catch (...) { other = true; }
	failAfter = -1; bool stillOK = w.entered.load(std::memory_order_relaxed) == w.left.load(std::memory_order_relaxed); VF_CHECK(stillOK, "returned-while-running", d); VF_CHECK(!other, "wrong-exception-type", d);
	if (n == 0) { VF_CHECK(!thrown && created == c0 && w.entered == 0, "empty", d); count("empty"); evals(); return; }
	if (T == 0) { VF_CHECK(thrown && w.entered == 0, "zero-threads", d); count("zero-threads"); evals(); return; }
	VF_EQ(joined - j0 + (detached - d0), created - c0, "threads-released", d); VF_EQ(detached - d0, 0, "detached", d);
	VF_EQ(w.outside.load(), 0, "index-or-thread-out-of-range", d); VF_EQ(w.overlap.load(), 0, "thread-index-shared", d);
	if (fa >= 0) { VF_CHECK(thrown, "creation-failure-hidden", d); for (uint64_t i = 0; i < n; i++) VF_CHECK(w.done[i] <= 1, "twice", d + fmt(" index %llu", (unsigned long long)i)); count("creation-failure"); evals(); return; }
	VF_CHECK((uint64_t)(created - c0) <= T, "too-many-threads", d + fmt(" created %d", created - c0));
	// what each worker did: a contiguous ascending run which ends at the end of its range or at an index that stopped it
	std::vector<int> owner(n, -1); size_t total = 0; bool anyThrow = false; std::vector<std::pair<uint64_t, uint64_t>> seg;
	for (size_t t = 0; t < eff; t++) { auto& L = w.log[t]; total += L.size(); for (size_t k = 0; k < L.size(); k++) { if (k) VF_CHECK(L[k].i == L[k - 1].i + 1, "not-ascending", d + fmt(" thread %zu", t)); VF_CHECK(owner[L[k].i] < 0, "twice", d + fmt(" index %llu", (unsigned long long)L[k].i)); owner[L[k].i] = t; Kind a = w.act[L[k].i]; if (a != Run) { VF_CHECK(k + 1 == L.size(), "continued-after-stop", d + fmt(" index %llu", (unsigned long long)L[k].i)); if (a != Stop) anyThrow = true; } } if (!L.empty()) seg.push_back({ L[0].i, L.back().i }); }
	VF_EQ(seg.size(), eff, "idle-thread", d); std::sort(seg.begin(), seg.end()); VF_CHECK(seg[0].first == 0, "first-index-missing", d);
	for (size_t k = 0; k < seg.size(); k++) { uint64_t end = k + 1 < seg.size() ? seg[k + 1].first : n; bool stopped = w.act[seg[k].second] != Run; VF_CHECK(seg[k].second + 1 == end || stopped, "index-skipped", d + fmt(" after %llu", (unsigned long long)seg[k].second)); uint64_t len = end - seg[k].first; VF_CHECK(len == n / eff || len == n / eff + 1, "unbalanced", d + fmt(" range %llu+%llu", (unsigned long long)seg[k].first, (unsigned long long)len)); }
	VF_EQ(thrown, anyThrow, "exception-propagation", d + " what: " + what);
	if (thrown) { bool match = false; for (size_t t = 0; t < eff; t++) { uint64_t i = w.log[t].back().i; switch (w.act[i]) { case ThrowStd: match |= what.find(w.text + fmt("-%llu", (unsigned long long)i)) != std::string::npos; break; case ThrowCyb: match |= what.find(fmt("mine:%d", (int)i)) != std::string::npos; break; case ThrowEmpty: case ThrowOther: match = true; break; default: break; } } VF_CHECK(match, "exception-message", d + " what: " + what); count("exceptions"); }
	if (nAct == 0) { VF_EQ(total, n, "total", d); count("complete"); } else if (!anyThrow) count("stopped"); count("calls", total); distinct(hashStr(d)); uint64_t order = 0; for (auto& L : w.log) order = mix(order + L.size()); distinct(order); evals(); if (wantSample()) sample(d + fmt(": %zu calls in %zu ranges, threw %d", total, seg.size(), thrown));
}
VF_IOPART(range, 5000, 60000, 30)
{
	switch (rng.below(6)) { case 0: one<int>(rng, "int", 1 << 30, 24); break; case 1: one<uint32_t>(rng, "uint32", 1u << 31, 24); break; case 2: one<uint8_t>(rng, "uint8", 255, 24); break; case 3: one<uint16_t>(rng, "uint16", 65535, 24); break; case 4: one<int64_t>(rng, "int64", 1 << 30, 24); break; default: one<size_t>(rng, "size_t", 1 << 30, 24); }
}
struct Sum { const std::vector<int>& in; std::vector<int>& out; bool operator()(size_t i, size_t) { out[i] = in[i] * 3 + 1; return true; } };
VF_IOPART(result, 300, 4000, 30)
{
	// results written by the workers are visible after the call and the call may be nested or made from several threads
	std::vector<int> in(1 + rng.below(5000)), out(in.size()); for (auto& x : in) x = rng.below(1000000); size_t T = 1 + rng.below(16); std::string d = fmt("n %zu threads %zu", in.size(), T); Sum s{ in, out }; cybozu::parallel_for(s, in.size(), T); bool ok = true; for (size_t i = 0; i < in.size(); i++) ok &= out[i] == in[i] * 3 + 1; VF_CHECK(ok, "result", d);
	struct Nest { std::vector<std::vector<int>> o; std::vector<int> in; bool operator()(size_t i, size_t) { Sum s{ in, o[i] }; cybozu::parallel_for(s, in.size(), (size_t)3); return true; } } nest; nest.in.assign(in.begin(), in.begin() + std::min<size_t>(in.size(), 200)); size_t M = 1 + rng.below(5); nest.o.assign(M, std::vector<int>(nest.in.size())); cybozu::parallel_for(nest, M, M); for (auto& o : nest.o) for (size_t i = 0; i < o.size(); i++) ok &= o[i] == nest.in[i] * 3 + 1; VF_CHECK(ok, "nested", d); count("results", in.size()); distinct(mix(in.size() * 31 + T)); evals();
}
// ranges as large as the index type allows: each worker notes where its block begins and stops at once
template<class N> struct First { std::vector<uint64_t> at; std::vector<int> calls; std::atomic<int> outside{ 0 }; explicit First(size_t T) : at(T), calls(T) {} bool operator()(N i, size_t t) { if (t >= at.size()) { outside.fetch_add(1, std::memory_order_relaxed); return false; } at[t] = (uint64_t)i; calls[t]++; return false; } };
template<class N> static void huge(Rng& rng, const char *tn, uint64_t maxT)
{
	uint64_t top = (uint64_t)std::numeric_limits<N>::max(), n = rng.chance(1, 3) ? top - rng.below(3) : rng.chance(1, 2) ? (top >> rng.below(sizeof(N) * 4)) : top / 2 + rng.below(top / 2); if (n == 0) n = 1; if (sizeof(N) > 1 && rng.chance(1, 20)) n = 1 + rng.below(300); uint64_t T = 1 + rng.below(rng.chance(1, 6) ? maxT : 24); if (n < 300 && sizeof(N) > 1 && rng.chance(1, 2)) T = n + rng.below(400); T = std::min(T, top); size_t eff = std::min(n, T); First<N> f(eff); std::string d = fmt("%s n %llu threads %llu", tn, (unsigned long long)n, (unsigned long long)T); note(d); failAfter = -1; int c0 = created; cybozu::parallel_for(f, (N)n, (N)T); VF_CHECK((uint64_t)(created - c0) <= eff, "too-many-threads", d + fmt(" created %d", created - c0)); if (T > n && n > 255) count("more-threads-than-indices");
	VF_EQ(f.outside.load(), 0, "index-or-thread-out-of-range", d); std::vector<uint64_t> b = f.at; for (int c : f.calls) VF_EQ(c, 1, "idle-thread", d); std::sort(b.begin(), b.end()); VF_CHECK(b[0] == 0, "first-index-missing", d); for (size_t k = 0; k < eff; k++) { uint64_t end = k + 1 < eff ? b[k + 1] : n, len = end - b[k]; VF_CHECK(end > b[k] && (len == n / eff || len == n / eff + 1), "unbalanced", d + fmt(" range %llu+%llu", (unsigned long long)b[k], (unsigned long long)len)); } count("huge"); distinct(hashStr(d)); evals();
}
VF_IOPART(huge, 800, 12000, 30)
{
	switch (rng.below(6)) { case 0: huge<int>(rng, "int", 300); break; case 1: huge<uint32_t>(rng, "uint32", 300); break; case 2: huge<uint8_t>(rng, "uint8", 200); break; case 3: huge<uint16_t>(rng, "uint16", 300); break; case 4: huge<int64_t>(rng, "int64", 300); break; default: huge<size_t>(rng, "size_t", 300); }
}
