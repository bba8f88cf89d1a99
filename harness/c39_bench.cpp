// C39: benchmark.hpp - the clock adds up exactly the measured intervals, the bench macros call the function the stated number
// of times, the report shows the mean in the right unit. The system clocks are replaced by a scripted one (except for rdtsc).
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <cstdio>
#include <iostream>
#include <unistd.h>
#include <time.h>
#include <sched.h>
#include <sys/time.h>
#include <sys/mman.h>
#include "common.hpp"
static bool g_fake; static uint64_t g_now, g_reads; static std::vector<uint64_t> g_steps;
static uint64_t tick() { uint64_t s = g_steps.empty() ? 1 : g_steps[g_reads % g_steps.size()]; g_reads++; return g_now += s; }
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!g_fake) return __real_clock_gettime(c, t); uint64_t n = tick(); t->tv_sec = (time_t)(n / 1000000000); t->tv_nsec = (long)(n % 1000000000); return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!g_fake) return __real_gettimeofday(t, z); uint64_t n = tick(); t->tv_sec = (time_t)(n / 1000000000); t->tv_usec = (long)(n % 1000000000 / 1000); return 0; }
}
#include <cybozu/benchmark.hpp>
using namespace vf;
struct Cap {
	static int fd() { static int f = memfd_create("vf", MFD_CLOEXEC); return f; } int saved; std::string& out;
	explicit Cap(std::string& o) : out(o) { fflush(stdout); std::cout.flush(); saved = dup(1); dup2(fd(), 1); out.clear(); }
	~Cap() { fflush(stdout); std::cout.flush(); dup2(saved, 1); close(saved); off_t n = lseek(fd(), 0, SEEK_END); if (n > 0) { out.resize((size_t)n); if (pread(fd(), &out[0], (size_t)n, 0) != n) abort(); if (ftruncate(fd(), 0)) abort(); lseek(fd(), 0, SEEK_SET); } }
};
static std::string shown(double t)
{
#ifdef CYBOZU_BENCH_USE_CPU_TIMER
	if (t > 1e6) return fmt("%7.3fMclk", t * 1e-6); if (t > 1e3) return fmt("%7.3fKclk", t * 1e-3); return fmt("%6.2f clk", t);
#else
	if (t > 1e6) return fmt("%7.3fmsec", t * 1e-6); if (t > 1e3) return fmt("%7.3fusec", t * 1e-3); return fmt("%6.2fnsec", t);
#endif
}
static double g_cb = -1; static int g_cbN; static void cb(double t) { g_cb = t; g_cbN++; }
#ifdef CYBOZU_BENCH_USE_CPU_TIMER
static const bool scripted = false;
#else
static const bool scripted = true;
#endif
static uint64_t unit(uint64_t n) {
#ifdef CYBOZU_BENCH_USE_GETTIMEOFDAY
	return n / 1000 * 1000;
#else
	return n;
#endif
}
struct Fake { Fake() { g_fake = true; g_reads = 0; } ~Fake() { g_fake = false; } };
static void script(Rng& g) { g_steps.clear(); uint64_t m = g.pick(std::vector<uint64_t>{ 3, 900, 5000, 200000, 3000000, 900000000, 5000000000ull }); for (int n = 1 + g.below(6); n > 0; n--) g_steps.push_back(g.below(m) * (g.chance(1, 4) ? 1000 : 1)); g_now = 1000 + g.below(1000000000000000ull); }
static uint64_t tsc() { unsigned a, d; __asm__ volatile("lfence; rdtsc; lfence" : "=a"(a), "=d"(d) : : "memory"); return (uint64_t)d << 32 | a; }
// time stamp counters of different processors need not agree
static bool pin() { int c = sched_getcpu(); cpu_set_t s; CPU_ZERO(&s); if (c < 0 || c >= CPU_SETSIZE) return false; CPU_SET(c, &s); return sched_setaffinity(0, sizeof(s), &s) == 0; }
VF_PART(clock, 8000, 200000)
{
	static const bool pinned = pin();
	script(rng); cybozu::CpuClock c; uint64_t sum = 0, lo = 0, hi = 0; int n = 0, ops = 1 + rng.below(20); std::string d; VF_CHECK(c.getClock() == 0 && c.getCount() == 0, "fresh", "");
	for (int i = 0; i < ops; i++) { int k = rng.below(8); d += fmt(" %d", k); if (k == 0) { c.clear(); sum = lo = hi = 0; n = 0; } else if (k == 1) { cybozu::CpuClock e(c); e.begin(); e.end(); cybozu::CpuClock f; f = c; VF_CHECK(f.getClock() == c.getClock() && f.getCount() == n, "copy", d); }
		else if (scripted) { uint64_t a, b; { Fake f; c.begin(); a = g_now; for (int w = rng.below(3); w > 0; w--) tick(); c.end(); b = g_now; VF_CHECK(g_reads >= 2, "clock-read", d); } sum += unit(b) - unit(a); n++; VF_EQ(c.getClock(), sum, "sum", d); }
		else { uint64_t t0 = tsc(); uint64_t now = pinned ? cybozu::CpuClock::getCpuClk() : 0; if (pinned) { uint64_t ta = tsc(); VF_CHECK(now + 2000 >= t0 && now <= ta + 2000, "absolute", d + fmt(" %llu not in [%llu,%llu]", (unsigned long long)now, (unsigned long long)t0, (unsigned long long)ta)); t0 = tsc(); } c.begin(); uint64_t t1 = tsc(); for (volatile int w = (int)rng.below(500); w > 0; w--) {} uint64_t t2 = tsc(); c.end(); uint64_t t3 = tsc(); hi += t3 - t0; lo += t2 - t1; n++; if (pinned) VF_CHECK(c.getClock() + 2000u * n >= lo && c.getClock() <= hi + 2000u * n, "bounds", d + fmt(" %llu not in [%llu,%llu]", (unsigned long long)c.getClock(), (unsigned long long)lo, (unsigned long long)hi)); }
		VF_EQ(c.getCount(), n, "count", d); count("interval"); if (scripted && idx % 512 == 7 && i == 0) { Fake f; int many = 66000 + (int)rng.below(9000); for (int q = 0; q < many; q++) { c.begin(); uint64_t a = g_now; c.end(); sum += unit(g_now) - unit(a); n++; } VF_CHECK(c.getCount() == n && c.getClock() == sum, "many", d + fmt(" %d intervals", n)); count("many"); } }
	if (n) { int N = 1 + (int)rng.below(rng.chance(1, 2) ? 3 : 2000); std::string o; double t = c.getClock() / double(n) / N; std::string msg = rng.chance(1, 3) ? "" : rng.from("abc %d", 1 + rng.below(8)); bool nul = rng.chance(1, 5); { Cap cap(o); c.put(nul ? 0 : msg.c_str(), N); } std::string w = shown(t); if (!nul && !msg.empty()) w = msg + " " + w + "\n"; VF_EQ(o, w, "put", d + fmt(" N=%d", N)); g_cb = -1; g_cbN = 0; cybozu::bench::setPutCallback(cb); { Cap cap(o); c.put(nul ? 0 : msg.c_str(), N); } cybozu::bench::setPutCallback(0); VF_CHECK(g_cbN == 1 && g_cb == t, "callback", d); VF_EQ(o, nul || msg.empty() ? std::string() : msg + " ", "callback-text", d); count("put"); }
	evals(); distinct(hashStr(d) ^ mix(g_now));
}
static uint64_t g_calls, g_arg; static void work(int a, int b) { g_calls++; g_arg += (uint64_t)(a * 7 + b); }
VF_PART(macros, 300, 6000)
{
	script(rng); if (rng.chance(1, 3)) for (auto& s : g_steps) s = rng.below(300000000); std::string o, d, msg = rng.chance(1, 2) ? "" : "m"; const char *m = msg.c_str(); int a = (int)rng.below(1000), b = (int)rng.below(1000); g_calls = g_arg = 0; int kind = idx % 3; typedef cybozu::CpuClock C; uint64_t maxClk = C::maxClk;
	if (kind == 2) { int N = rng.chance(1, 10) ? 0 : rng.chance(1, 2) ? 1 + rng.below(5) : rng.below(3000); d = fmt("N=%d", N); uint64_t now = g_now; { Cap cap(o); Fake f; CYBOZU_BENCH_C(m, N, work, a, b); } VF_EQ(g_calls, (uint64_t)N, "calls", d); VF_EQ(g_arg, (uint64_t)N * (a * 7 + b), "args", d); VF_CHECK(cybozu::bench::g_loopNum == N && cybozu::bench::g_clk.getCount() == 1, "globals", d); if (scripted) { uint64_t s0 = now + g_steps[0], s1 = s0 + g_steps[1 % g_steps.size()]; VF_EQ(cybozu::bench::g_clk.getClock(), unit(s1) - unit(s0), "clk", d); } if (N) VF_EQ(o, msg.empty() ? std::string() : "m " + shown(cybozu::bench::g_clk.getClock() / 1.0 / N) + "\n", "text", d); }
	else { double clk = -1; uint64_t now = g_now; { Cap cap(o); Fake f; if (kind) { CYBOZU_BENCH_T(clk, work, a, b); } else { CYBOZU_BENCH(m, work, a, b); } } d = fmt("kind %d calls %llu", kind, (unsigned long long)g_calls); VF_CHECK(g_calls && g_calls % C::loopN1 == 0 && g_calls <= (uint64_t)C::loopN1 * C::loopN2, "calls", d); VF_EQ(g_arg, g_calls * (a * 7 + b), "args", d); uint64_t sum = 0; int n = 0;
		if (scripted) { uint64_t t = now; size_t k = 0; for (n = 0; n < C::loopN2; ) { t += g_steps[k++ % g_steps.size()]; uint64_t s = t; t += g_steps[k++ % g_steps.size()]; sum += unit(t) - unit(s); n++; if (sum > maxClk) break; } VF_EQ(g_calls, (uint64_t)n * C::loopN1, "loops", d); if (n < C::loopN2) count("stopped-early"); } else { n = (int)(g_calls / C::loopN1); sum = cybozu::bench::g_clk.getClock(); }
		if (kind) { if (scripted) VF_CHECK(clk == sum / (double)n / C::loopN1, "mean", d + fmt(" %g", clk)); else VF_CHECK(clk > 0, "mean", d); }
		else { VF_CHECK(cybozu::bench::g_clk.getClock() == sum && cybozu::bench::g_clk.getCount() == n && cybozu::bench::g_loopNum == C::loopN1, "globals", d); VF_EQ(o, msg.empty() ? std::string() : "m " + shown(sum / double(n) / C::loopN1) + "\n", "text", d); if (!scripted && n < C::loopN2) VF_CHECK(sum > maxClk, "stops-early", d); } }
	count(kind == 0 ? "macro" : kind == 1 ? "macro-T" : "macro-C"); evals(); distinct(mix(idx) ^ g_calls);
}
