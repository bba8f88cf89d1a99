// C29: ThreadBase life cycle (exactly one run per begin, join/detach exactly once, failing creation), Tls isolation, Sleep, QuitSignalHandler.
#include <stdint.h>
#include <string.h>
#include <thread>
#include "common.hpp"
#include <cybozu/exception.hpp>
#include <cybozu/thread.hpp>
#include <cybozu/tls.hpp>
#include <cybozu/quit_signal_handler.hpp>
using namespace vf;
static int failCreate; static std::atomic<int> created(0), joined(0), detached(0);
extern "C" { int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __real_pthread_join(pthread_t, void **); int __real_pthread_detach(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { if (failCreate) { *t = (pthread_t)0x5151515151; /* contents are undefined on failure */ return EAGAIN; } int r = __real_pthread_create(t, a, f, x); if (r == 0) created.fetch_add(1, std::memory_order_relaxed); return r; }
int __wrap_pthread_join(pthread_t t, void **r) { if (t == (pthread_t)0x5151515151) { vf::report("join-of-no-thread", "pthread_join called with the handle of a failed creation"); return ESRCH; } int e = __real_pthread_join(t, r); if (e == 0) joined.fetch_add(1, std::memory_order_relaxed); return e; }
int __wrap_pthread_detach(pthread_t t) { if (t == (pthread_t)0x5151515151) { vf::report("detach-of-no-thread", "pthread_detach called with the handle of a failed creation"); return ESRCH; } int e = __real_pthread_detach(t); if (e == 0) detached.fetch_add(1, std::memory_order_relaxed); return e; } }
static void jitter(Rng& g) { switch (g.below(6)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < (int)g.below(500); i++) {} break; case 2: if (g.chance(1, 4)) usleep(g.below(100)); break; default: break; } }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Shared { std::atomic<int> runs{ 0 }, finished{ 0 }; };
struct Th : cybozu::ThreadBase { uint64_t in = 0, out = 0; uint64_t seed = 0; pthread_t self; std::shared_ptr<Shared> sh{ new Shared }; void threadEntry() { std::shared_ptr<Shared> s = sh; s->runs.fetch_add(1, std::memory_order_relaxed); Rng g(seed); jitter(g); out = mix(in); jitter(g); s->finished.fetch_add(1, std::memory_order_relaxed); } };
VF_IOPART(life, 700, 20000, 30)
{
	failCreate = 0; int c0 = created, j0 = joined, d0 = detached; std::string d; int n = 1 + rng.below(6); std::vector<std::unique_ptr<Th>> v; std::vector<int> begun(n, 0), live(n, 0); std::vector<std::shared_ptr<Shared>> sh; for (int i = 0; i < n; i++) { v.emplace_back(new Th); sh.push_back(v.back()->sh); } int begins = 0, det = 0; std::vector<std::shared_ptr<Th>> zombies;
	for (int k = 3 + rng.below(25); k > 0; k--) { int i = rng.below(n); Th& t = *v[i]; int op = rng.below(8); d += fmt(" %d:%d", op, i); note(d); switch (op) {
		case 0: case 1: case 2: if (!live[i]) { t.seed = rng.next(); t.in = rng.next(); bool ok = t.beginThread(rng.chance(1, 3) ? 1 << (18 + rng.below(4)) : 0); VF_CHECK(ok, "begin", d); if (ok) { live[i] = 1; begun[i]++; begins++; } } break;
		case 3: case 4: { bool was = live[i]; uint64_t in = t.in; VF_CHECK(t.joinThread(), "join", d); if (was) { VF_EQ(sh[i]->finished.load(std::memory_order_relaxed), begun[i], "join-before-end", d); VF_EQ(t.out, mix(in), "result-after-join", d); count("joins"); } live[i] = 0; break; }
		case 5: if (!live[i]) { VF_CHECK(!t.detachThread(), "detach-nothing", d); VF_CHECK(t.joinThread(), "join-nothing", d); } break;
		case 6: if (!live[i]) { failCreate = 1; bool ok = t.beginThread(); failCreate = 0; VF_CHECK(!ok, "failed-begin", d); if (rng.chance(1, 3)) VF_CHECK(t.joinThread(), "join-after-failed-begin", d); else if (rng.chance(1, 2)) VF_CHECK(!t.detachThread(), "detach-after-failed-begin", d); else if (rng.chance(1, 2)) { v[i].reset(new Th); sh[i] = v[i]->sh; begun[i] = 0; } VF_EQ(sh[i]->runs.load(), begun[i], "run-after-failed-begin", d); count("failed-begin"); } break;
		default: if (!live[i]) { bool ok = t.beginThread(1 + rng.below(100)); VF_CHECK(!ok, "tiny-stack", d); VF_EQ(sh[i]->runs.load(), begun[i], "run-after-tiny-stack", d); count("tiny-stack"); } } }
	for (int i = 0; i < n; i++) { v[i]->joinThread(); VF_EQ(sh[i]->runs.load(), begun[i], "runs", d); VF_EQ(sh[i]->finished.load(), begun[i], "finished", d); v[i].reset(); } VF_EQ(created - c0, begins, "created", d); VF_EQ(joined - j0, begins, "joined-once", d); VF_EQ(detached - d0, 0, "detached", d); distinct(hashStr(d)); count("begins", begins); evals();
}
// destroying the object waits for its thread
struct Own : cybozu::ThreadBase { std::shared_ptr<Shared> sh{ new Shared }; int us = 0; void threadEntry() { std::shared_ptr<Shared> s = sh; int u = us; s->runs.fetch_add(1, std::memory_order_release); usleep(u); s->finished.fetch_add(1, std::memory_order_relaxed); } };
VF_IOPART(destroy, 120, 3000, 30)
{
	failCreate = 0; int c0 = created, j0 = joined, d0 = detached, n = 1 + rng.below(4); std::vector<std::shared_ptr<Shared>> sh; std::string d = fmt("%d objects", n);
	{ std::vector<std::unique_ptr<Own>> v; for (int i = 0; i < n; i++) { v.emplace_back(new Own); v[i]->us = rng.below(8000); sh.push_back(v[i]->sh); VF_CHECK(v[i]->beginThread(), "begin", d); } for (auto& x : sh) while (x->runs.load(std::memory_order_acquire) < 1) usleep(20); }
	for (auto& x : sh) VF_EQ(x->finished.load(std::memory_order_relaxed), 1, "destroyed-before-end", d); VF_EQ(created - c0, n, "created", d); VF_EQ((joined - j0) + (detached - d0), n, "released-once", d); count("destroyed", n); distinct(rng.next()); evals();
}
VF_IOPART(detach, 200, 5000, 30)
{
	// joinThread/detachThread/destruction from several threads: the handle is released exactly once, the work runs exactly once
	failCreate = 0; int c0 = created, j0 = joined, d0 = detached; std::shared_ptr<Th> t(new Th); t->seed = rng.next(); t->in = 3; auto sh = t->sh; int mode = rng.below(3); std::string d = fmt("mode %d", mode); VF_CHECK(t->beginThread(), "begin", d); std::atomic<int> dtrue(0), jtrue(0); int K = 2 + rng.below(4); std::vector<std::thread> v; std::atomic<int> gate(0); uint64_t seed = rng.next();
	for (int k = 0; k < K; k++) v.emplace_back([&, k] { Rng g(seed + k); gate++; while (gate < K) {} bool det = mode == 0 ? true : mode == 1 ? false : k % 2; if (det) { if (t->detachThread()) dtrue++; } else if (t->joinThread()) jtrue++; });
	for (auto& x : v) x.join(); VF_EQ((joined - j0) + (detached - d0), 1, "released-once", d + fmt(" joined %d detached %d", joined - j0, detached - d0)); VF_EQ(dtrue.load(), detached - d0, "detach-result", d); while (sh->finished.load(std::memory_order_relaxed) < 1) usleep(50); VF_EQ(sh->runs.load(), 1, "detached-run", d); usleep(200); count("detach"); distinct(mix(seed)); evals();
	static std::vector<std::shared_ptr<Th>> keep; keep.push_back(t); // a detached thread may still be inside the object
}
VF_IOPART(tls, 150, 4000, 30)
{
	failCreate = 0; int n = 1 + rng.below(6), T = 1 + rng.below(6); std::vector<std::unique_ptr<cybozu::Tls>> k; for (int i = 0; i < n; i++) k.emplace_back(new cybozu::Tls); uint64_t seed = rng.next(); std::string d = fmt("keys %d threads %d", n, T); std::atomic<int> bad(0), bar(0); std::vector<std::thread> v; int R = 2 + rng.below(3); std::vector<void *> mainVals(n); for (int i = 0; i < n; i++) { if (k[i]->get() != 0) bad++; mainVals[i] = (void *)(uintptr_t)rng.next(); k[i]->set(mainVals[i]); }
	for (int t = 0; t < T; t++) v.emplace_back([&, t] { Rng g(seed + t); for (int r = 0; r < R; r++) { std::vector<void *> mine(n, (void *)0); for (int i = 0; i < n; i++) if (k[i]->get() != 0) bad++; for (int s = 0; s < 40; s++) { int i = g.below(n); if (k[i]->get() != mine[i]) bad++; if (g.chance(1, 2)) { void *p = g.chance(1, 6) ? 0 : (void *)(uintptr_t)g.next(); if (!k[i]->set(p)) bad++; mine[i] = p; } if (g.chance(1, 10)) sched_yield(); } for (int i = 0; i < n; i++) if (k[i]->get() != mine[i]) bad++;
		bar++; while (bar < (2 * r + 1) * T) sched_yield(); if (t == 0) for (int i = 0; i < n; i++) { k[i].reset(); k[i].reset(new cybozu::Tls); } bar++; while (bar < (2 * r + 2) * T) sched_yield(); } });
	for (auto& x : v) x.join(); VF_EQ(bad.load(), 0, "tls-isolation", d); for (int i = 0; i < n; i++) VF_CHECK(k[i]->get() == 0, "tls-fresh", d); count("tls", T); distinct(seed);
	if (idx % 16 == 0) { std::vector<std::unique_ptr<cybozu::Tls>> many; int okN = 0, noN = 0; for (int i = 0; i < 1100; i++) { many.emplace_back(new cybozu::Tls); void *p = (void *)(uintptr_t)(i + 1); if (many.back()->set(p)) okN++; else { noN++; VF_CHECK(many.back()->get() == 0, "tls-exhausted", ""); } } int i = 0; bool ok = true; for (auto& m : many) { void *g = m->get(); ok &= g == 0 || g == (void *)(uintptr_t)(i + 1); i++; } VF_CHECK(ok && okN > 500 && noN > 50, "tls-many", fmt("%d %d", okN, noN)); many.clear(); cybozu::Tls again; VF_CHECK(again.set(&again) && again.get() == &again, "tls-released", ""); count("tls-exhausted"); } evals();
}
static std::atomic<int> sigs(0); static void onSig(int) { sigs++; }
VF_IOPART(sleep, 40, 400, 30)
{
	failCreate = 0; struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onSig; sigaction(SIGUSR1, &sa, 0); int ms = rng.chance(1, 6) ? 0 : rng.chance(1, 10) ? 1000 + rng.below(30) : 1 + rng.below(80); bool storm = rng.chance(1, 2); std::atomic<bool> stop(false); pthread_t me = pthread_self(); std::thread t; if (storm) t = std::thread([&] { while (!stop) { usleep(700); pthread_kill(me, SIGUSR1); } }); double b = now(); cybozu::Sleep(ms); double e = now() - b; stop = true; if (storm) t.join(); VF_CHECK(e >= ms * 0.999e-3 && e < ms * 1e-3 + 20, "sleep-time", fmt("%d ms, storm %d: %g s", ms, storm, e)); VF_EQ(cybozu::GetProcessId(), (unsigned)getpid(), "pid", ""); VF_EQ(cybozu::GetProcessorNum(), (int)sysconf(_SC_NPROCESSORS_ONLN), "cpus", ""); count("sleep"); distinct(ms * 2 + storm); evals();
}
struct App { std::atomic<int> n; App() : n(0) {} void quit() { n = n + 1; } };
struct App2 { std::atomic<int> n; App2() : n(0) {} void quit() { n = n + 1; } };
// a signal arriving while the application is being told to quit is delivered after it, not inside it
struct App3 { std::atomic<int> n, depth, worst; int nested; App3() : n(0), depth(0), worst(0), nested(0) {} void quit() { int k = ++depth; if (k > worst) worst = k; n = n + 1; if (nested) { int s = nested; nested = 0; raise(s); } --depth; } };
VF_IOPART(requit, 80, 800, 30)
{
	static const int all[] = { SIGINT, SIGQUIT, SIGABRT, SIGTERM }; struct sigaction old[4]; for (int i = 0; i < 4; i++) sigaction(all[i], 0, &old[i]);
	{ App3 a; cybozu::QuitSignalHandler<App3> h(a); int want = 0; std::string d; for (int k = 1 + rng.below(5); k > 0; k--) { int s = all[rng.below(4)], t = all[rng.below(4)]; d += fmt(" %d in %d", t, s); a.nested = t; raise(s); want += 2; VF_EQ((int)a.n, want, "quit-called", d); VF_EQ((int)a.worst, 1, "quit-reentered", d); }
	  // the signal interrupts a blocking call, so that a waiting application notices it
	  int p[2]; if (pipe(p) == 0) { int s = all[rng.below(4)]; std::atomic<bool> done(false); pthread_t me = pthread_self(); a.nested = 0; std::thread t([&] { sigset_t m; sigfillset(&m); pthread_sigmask(SIG_SETMASK, &m, 0); for (int i = 0; i < 2500 && !done; i++) { usleep(2000); if (!done) pthread_kill(me, s); } if (!done) { char c = 1; ssize_t r = write(p[1], &c, 1); (void)r; } }); char c; ssize_t r = read(p[0], &c, 1); int en = errno; done = true; t.join(); close(p[0]); close(p[1]); VF_CHECK(r < 0 && en == EINTR, "blocking-call-not-interrupted", d + fmt(" %d r %zd", s, r)); VF_CHECK(a.n > want && a.worst == 1, "quit-called", d); } count("nested-signals", want); distinct(hashStr(d)); }
	for (int i = 0; i < 4; i++) sigaction(all[i], &old[i], 0); evals();
}
VF_IOPART(quit, 60, 800, 30)
{
	static const int all[] = { SIGINT, SIGQUIT, SIGABRT, SIGTERM }; struct sigaction old[4]; for (int i = 0; i < 4; i++) sigaction(all[i], 0, &old[i]); { App a, a2; App2 b; cybozu::QuitSignalHandler<App> h(a); int want = 0; std::string d; for (int k = 1 + rng.below(8); k > 0; k--) { int s = all[rng.below(4)]; d += fmt(" %d", s); if (rng.chance(1, 2)) raise(s); else { int p[2]; if (pipe(p)) break; pthread_t me = pthread_self(); std::thread t([&] { usleep(3000); pthread_kill(me, s); usleep(20000); char c = 1; ssize_t r = write(p[1], &c, 1); (void)r; }); char c; ssize_t r = read(p[0], &c, 1); VF_CHECK(r == 1 || (r < 0 && errno == EINTR), "blocking-call", d); t.join(); close(p[0]); close(p[1]); } want++; VF_EQ((int)a.n, want, "quit-called", d); } cybozu::QuitSignalHandler<App> h2(a2); raise(SIGTERM); VF_CHECK((int)a.n == want && a2.n == 1, "latest-app", d); cybozu::QuitSignalHandler<App2> h3(b); raise(SIGINT); VF_CHECK(b.n == 1 && a2.n == 1, "per-type", d); count("signals", want); distinct(hashStr(d)); }
	for (int i = 0; i < 4; i++) sigaction(all[i], &old[i], 0); evals();
}
