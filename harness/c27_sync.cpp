// C27: Mutex/CriticalSection, ConditionVariable(Cs), Event under contention: occupancy monitors, exactly-once queues, barriers, acknowledged wakeups (TSan + plain).
#include <stdint.h>
#include <string.h>
#include <deque>
#include <thread>
#include "common.hpp"
#include <cybozu/mutex.hpp>
#include <cybozu/critical_section.hpp>
#include <cybozu/condition_variable.hpp>
#include <cybozu/condition_variable_cs.hpp>
#include <cybozu/event.hpp>
using namespace vf;
static void jitter(Rng& g) { switch (g.below(8)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < (int)g.below(300); i++) {} break; case 2: if (g.chance(1, 6)) usleep(g.below(60)); break; default: break; } }
struct M1 { typedef cybozu::Mutex Mutex; typedef cybozu::AutoLock Lock; typedef cybozu::ConditionVariable Cv; static const char *name() { return "Mutex"; } };
struct M2 { typedef cybozu::CriticalSection Mutex; typedef cybozu::AutoLockCs Lock; typedef cybozu::ConditionVariableCs Cv; static const char *name() { return "CriticalSection"; } };
struct Boom {};
template<class M> static void excl(Rng& rng)
{
	typename M::Mutex m; int T = 2 + rng.below(6), N = 50 + rng.below(400); uint64_t plainCount = 0; std::atomic<int> inside(0), worst(0); std::vector<int> order; uint64_t seed = rng.next(); std::string d = fmt("%s threads %d x %d", M::name(), T, N); note(d); std::vector<std::thread> v;
	for (int t = 0; t < T; t++) v.emplace_back([&, t] { Rng g(seed + t * 77); for (int i = 0; i < N; i++) { auto body = [&] { int k = inside.fetch_add(1, std::memory_order_relaxed) + 1; if (k > 1) worst.store(k, std::memory_order_relaxed); plainCount++; if (order.empty() || order.back() != t) order.push_back(t); jitter(g); inside.fetch_sub(1, std::memory_order_relaxed); };
		switch (g.below(3)) { case 0: m.lock(); body(); m.unlock(); break; case 1: { typename M::Lock l(m); body(); break; } default: try { typename M::Lock l(m); body(); if (g.chance(1, 2)) throw Boom(); } catch (Boom&) {} } jitter(g); } });
	for (auto& t : v) t.join(); VF_EQ(worst.load(), 0, "mutual-exclusion", d); VF_EQ(plainCount, (uint64_t)T * N, "lost-update", d); uint64_t h = T; for (int o : order) h = mix(h * 31 + o); distinct(h); count("sections", (uint64_t)T * N); count("handovers", order.size()); evals();
}
VF_IOPART(exclusion, 200, 3000, 30) { if (idx & 1) excl<M1>(rng); else excl<M2>(rng); }
// bounded queue: every item arrives exactly once and in the order of its producer; two conditions, notifyOne
template<class M> static void queue(Rng& rng)
{
	typename M::Mutex m; typename M::Cv notEmpty, notFull; std::deque<uint64_t> q; size_t cap = 1 + rng.below(4); int P = 1 + rng.below(4), C = 1 + rng.below(4), N = 40 + rng.below(200); bool all = rng.chance(1, 4); uint64_t seed = rng.next(); std::string d = fmt("%s P %d C %d N %d cap %zu all %d", M::name(), P, C, N, cap, all); note(d); std::vector<std::vector<uint64_t>> got(C); int left = P * N; std::vector<std::thread> v; std::atomic<uint64_t> waits(0), wakes(0); uint64_t owner = 0; std::atomic<int> bad(0);
	for (int p = 0; p < P; p++) v.emplace_back([&, p] { Rng g(seed + p); for (int i = 0; i < N; i++) { jitter(g); typename M::Lock l(m); while (q.size() >= cap) { waits++; owner = 0; notFull.wait(m); wakes++; if (owner) bad++; } owner = p + 1; q.push_back((uint64_t)p << 32 | i); jitter(g); if (owner != (uint64_t)p + 1) bad++; owner = 0; if (all) notEmpty.notifyAll(); else notEmpty.notifyOne(); } });
	for (int c = 0; c < C; c++) v.emplace_back([&, c] { Rng g(seed + 1000 + c); for (;;) { jitter(g); typename M::Lock l(m); while (q.empty() && left > 0) { waits++; notEmpty.wait(m); wakes++; if (owner) bad++; } if (left == 0) return; owner = c + 100; got[c].push_back(q.front()); q.pop_front(); left--; jitter(g); if (owner != (uint64_t)c + 100) bad++; owner = 0; if (all) notFull.notifyAll(); else notFull.notifyOne(); if (left == 0) { notEmpty.notifyAll(); return; } } });
	for (auto& t : v) t.join(); std::set<uint64_t> seen; uint64_t h = 0; for (auto& g : got) { std::vector<int64_t> last(P, -1); for (uint64_t x : g) { VF_CHECK(seen.insert(x).second, "duplicate-item", d); int p = x >> 32; VF_CHECK((int64_t)(uint32_t)x > last[p], "order", d); last[p] = (uint32_t)x; h = mix(h ^ x); } } VF_EQ(seen.size(), (size_t)P * N, "lost-item", d); VF_EQ(bad.load(), 0, "wait-returned-without-lock", d); count("items", seen.size()); count("waits", waits); count("wakeups", wakes); distinct(h); evals();
}
VF_IOPART(queue, 240, 3000, 30) { if (idx & 1) queue<M1>(rng); else queue<M2>(rng); }
// barrier: notifyAll releases every waiter; notifyOne releases a known waiter
template<class M> static void barrier(Rng& rng)
{
	typename M::Mutex m; typename M::Cv cv; int T = 2 + rng.below(7), R = 3 + rng.below(20); int arrived = 0, round = 0; std::vector<int> seen(T, 0); uint64_t seed = rng.next(); std::string d = fmt("%s barrier %d x %d", M::name(), T, R); note(d); std::vector<std::thread> v; std::atomic<int> bad(0);
	for (int t = 0; t < T; t++) v.emplace_back([&, t] { Rng g(seed + t); for (int r = 0; r < R; r++) { jitter(g); typename M::Lock l(m); if (round != r) bad++; if (++arrived == T) { arrived = 0; round++; cv.notifyAll(); } else while (round == r) cv.wait(m); seen[t]++; } });
	for (auto& t : v) t.join(); VF_EQ(bad.load(), 0, "barrier", d); for (int t = 0; t < T; t++) VF_EQ(seen[t], R, "barrier-rounds", d); count("barrier-rounds", R);
	// tickets: the waiters are known to wait, each notifyOne must release at least one of them
	int waiting = 0, tickets = 0, done = 0; v.clear(); typename M::Cv go, back; for (int t = 0; t < T; t++) v.emplace_back([&] { typename M::Lock l(m); waiting++; back.notifyOne(); while (tickets == 0) go.wait(m); tickets--; done++; back.notifyOne(); });
	{ typename M::Lock l(m); while (waiting < T) back.wait(m); for (int k = 1; k <= T; k++) { tickets++; go.notifyOne(); while (done < k) back.wait(m); VF_EQ(done, k, "one-ticket-one-waiter", d); } } for (auto& t : v) t.join(); count("tickets", T); distinct(seed); evals();
}
VF_IOPART(barrier, 200, 3000, 30) { if (idx & 1) barrier<M1>(rng); else barrier<M2>(rng); }
VF_IOPART(event, 240, 4000, 30)
{
	cybozu::Event e; int W = 1 + rng.below(5), N = 20 + rng.below(100); std::atomic<int> returned(0), started(0); std::atomic<bool> stop(false); uint64_t seed = rng.next(); std::string d = fmt("waiters %d wakeups %d", W, N); note(d); std::vector<std::thread> v; uint64_t box = 0, sum = 0; bool merge = W == 1 && rng.chance(1, 2);
	if (merge) { // wakeups before a wait merge into one; the event is reset by the wait
		e.wakeup(); for (int i = rng.below(4); i > 0; i--) e.wakeup(); e.wait(); std::thread t([&] { e.wait(); returned = 1; }); usleep(2000 + rng.below(2000)); VF_EQ(returned.load(), 0, "not-reset", d); e.wakeup(); t.join(); VF_EQ(returned.load(), 1, "wakeup", d); count("merged"); }
	else { // each acknowledged wakeup releases exactly one waiter and publishes the data written before it
		for (int w = 0; w < W; w++) v.emplace_back([&, w] { Rng g(seed + w); for (;;) { jitter(g); e.wait(); if (stop.load(std::memory_order_relaxed)) { e.wakeup(); return; } uint64_t x = box; if (x != (uint64_t)returned.load(std::memory_order_relaxed) + 1) vf::fail("event-data", d + fmt(" %llu", (unsigned long long)x)); sum += x; returned.fetch_add(1, std::memory_order_release); } });
		Rng g(seed ^ 5); for (int i = 1; i <= N; i++) { jitter(g); box = i; e.wakeup(); for (int sp = 0; returned.load(std::memory_order_acquire) < i; sp++) { if (sp < 20000) sched_yield(); else usleep(20000); } VF_EQ(returned.load(), i, "one-waiter-per-wakeup", d); } usleep(500); VF_EQ(returned.load(), N, "extra-return", d); VF_EQ(sum, (uint64_t)N * (N + 1) / 2, "event-sum", d); stop = true; e.wakeup(); for (auto& t : v) t.join(); count("acknowledged", N); }
	// free-running ping-pong without acknowledgement: no lost wakeup
	{ cybozu::Event a, b; int K = 100 + rng.below(400); uint64_t turn = 0; std::thread t([&] { Rng g(seed + 9); for (int i = 0; i < K; i++) { a.wait(); turn++; jitter(g); b.wakeup(); } }); Rng g(seed + 10); for (int i = 0; i < K; i++) { jitter(g); turn++; a.wakeup(); b.wait(); VF_EQ(turn, (uint64_t)2 * (i + 1), "ping-pong", d); } t.join(); count("ping-pong", K); } distinct(seed); evals();
}
// free-running wakers and waiters, nothing else orders them: the event alone must be race free; every waiter is released
VF_IOPART(storm, 160, 2000, 30)
{
	cybozu::Event e; int K = 1 + rng.below(4), W = 1 + rng.below(4), N = 50 + rng.below(300); uint64_t seed = rng.next(); std::atomic<int> wakes(0), gone(0); std::string d = fmt("wakers %d waiters %d x %d", K, W, N); note(d); std::vector<std::thread> v;
	for (int w = 0; w < W; w++) v.emplace_back([&, w] { Rng g(seed + w); for (int i = 0; i < N; i++) { e.wait(); jitter(g); } gone.fetch_add(1, std::memory_order_relaxed); });
	for (int k = 0; k < K; k++) v.emplace_back([&, k] { Rng g(seed + 100 + k); while (gone.load(std::memory_order_relaxed) < W) { e.wakeup(); wakes.fetch_add(1, std::memory_order_relaxed); jitter(g); } });
	for (auto& t : v) t.join(); VF_CHECK(wakes.load() >= W * N, "wait-without-wakeup", d); count("storm-waits", (uint64_t)W * N); distinct(seed); evals();
}
