// Shared monitoring machinery for all harnesses: seeded case driver, event
// counters, distinct-state accounting, violation log, CPU/wall watchdog.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <pthread.h>
#include <dirent.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <atomic>
#include <mutex>
#include <memory>
#include <sstream>

namespace vf {

inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char *c = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return mix(h ^ n);
}
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	// inclusive
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
	bool chance(int num, int den) { return below(den) < (uint64_t)num; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	char pickc(const char *s) { return s[below(strlen(s))]; }
	size_t budget = 0; // > 0: some lengths become very long, this many elements in total (parts made with VF_LONG)
	bool grow(size_t *n) { if (!budget || !chance(1, 3)) return false; size_t k = size_t(1) << (4 + below(17)); k += below(k); k = std::min(k, budget); budget -= k; *n = k; return true; }
	// length below n, or very long
	size_t upto(size_t n) { size_t k; return grow(&k) ? k : below(n); }
	// length biased to small with occasional larger values
	size_t len(size_t maxLen) {
		size_t k; if (grow(&k)) return k;
		switch (below(6)) {
		case 0: return below(std::min<size_t>(maxLen, 3) + 1);
		case 1: case 2: return below(std::min<size_t>(maxLen, 12) + 1);
		case 3: case 4: return below(std::min<size_t>(maxLen, 70) + 1);
		default: return below(maxLen + 1);
		}
	}
	std::string bytes(size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = (char)next(); return r; }
	std::string from(const char *alpha, size_t n) { size_t m = strlen(alpha); std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = alpha[below(m)]; return r; }
	std::string from(const std::string& alpha, size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = alpha[below(alpha.size())]; return r; }
	// integers biased to boundaries
	uint64_t edgy64() {
		switch (below(8)) {
		case 0: return below(4);
		case 1: return (uint64_t)0 - below(4);
		case 2: { uint64_t b = 1ull << below(64); return b + (int64_t)range(-2, 2); }
		case 3: return (uint64_t)0 - ((1ull << below(64)) + (int64_t)range(-2, 2));
		case 4: return next() >> below(64);
		case 5: { uint64_t p = 1; for (uint64_t i = below(20); i > 0; i--) p *= 10; return p + (int64_t)range(-2, 2); }
		case 6: return (uint64_t)0 - (next() >> below(64));
		default: return next();
		}
	}
};

// exact-size heap copy: any access outside [p, p+n) trips ASan
struct Exact {
	char *p; size_t n;
	explicit Exact(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); else { free(p); p = (char*)malloc(1); } }
	explicit Exact(size_t size, int fill = 0xA5) : p((char*)malloc(size ? size : 1)), n(size) { memset(p, fill, size ? size : 1); }
	~Exact() { free(p); }
	const char *begin() const { return p; }
	const char *end() const { return p + n; }
	std::string str() const { return std::string(p, n); }
	Exact(const Exact&) = delete; void operator=(const Exact&) = delete;
};

struct Violation { std::string key, detail; };

struct Seq { uint64_t v; operator uint64_t() const { return __atomic_load_n(&v, __ATOMIC_RELAXED); } void operator=(uint64_t x) { __atomic_store_n(&v, x, __ATOMIC_RELAXED); } };
struct Progress { Seq caseIdx; Seq seq; char part[64]; char note[512]; };

struct State {
	uint64_t seed = 1; bool thorough = false; unsigned shard = 0, shards = 1;
	std::string onlyPart; bool haveCase = false; uint64_t onlyCase = 0;
	std::string outPath; FILE *viol = 0; Progress *prog = 0; Progress local;
	std::string scratch; double scale = 1;
	std::map<std::string, uint64_t> counts; std::unordered_set<uint64_t> distinct; uint64_t distinctDropped = 0;
	std::vector<std::string> samples; uint64_t sampleSeen = 0;
	uint64_t evaluations = 0; unsigned nviol = 0; std::recursive_mutex m; std::string curPart; uint64_t curCase = 0;
	std::set<std::string> seenKeys; Rng srng{12345};
};
inline State& st() { static State *s = new State; return *s; }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
	va_list a; va_start(a, f); char *p = 0; int n = vasprintf(&p, f, a); va_end(a);
	std::string r; if (n >= 0) { r.assign(p, n); free(p); } return r;
}
inline std::string hex(const std::string& s, size_t maxN = 200)
{
	std::string r;
	for (size_t i = 0; i < s.size() && i < maxN; i++) {
		unsigned char c = s[i];
		if (c >= 0x20 && c < 0x7f && c != '\\') r += (char)c; else r += fmt("\\x%02x", c);
	}
	if (s.size() > maxN) r += fmt("...(%zu bytes)", s.size());
	return r;
}
inline std::string jesc(const std::string& s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c);
		else r += (char)c;
	}
	return r;
}
inline void count(const char *name, uint64_t n = 1) { State& s = st(); std::lock_guard<std::recursive_mutex> g(s.m); s.counts[name] += n; }
// register a distinct nontrivial case/state by hash
inline void distinct(uint64_t h)
{
	State& s = st(); std::lock_guard<std::recursive_mutex> g(s.m);
	if (s.distinct.size() < 400000) s.distinct.insert(mix(h ^ hashStr(s.curPart))); else s.distinctDropped++;
}
inline void evals(uint64_t n = 1) { State& s = st(); std::lock_guard<std::recursive_mutex> g(s.m); s.evaluations += n; }
inline void sample(const std::string& txt)
{
	State& s = st(); std::lock_guard<std::recursive_mutex> g(s.m);
	s.sampleSeen++;
	if (s.samples.size() < 4) s.samples.push_back(s.curPart + ": " + txt);
	else if (s.srng.below(s.sampleSeen) < 4) s.samples[s.srng.below(4)] = s.curPart + ": " + txt;
}
inline bool wantSample() { State& s = st(); return s.sampleSeen < 4 || (s.evaluations & 1023) == 0; }
inline void note(const std::string& txt)
{
	Progress *p = st().prog; size_t n = std::min(txt.size(), sizeof(p->note) - 1);
	memcpy(p->note, txt.data(), n); p->note[n] = 0;
}
// record a violation without unwinding (usable from any thread)
inline void report(const std::string& key, const std::string& detail)
{
	State& s = st(); std::lock_guard<std::recursive_mutex> g(s.m);
	s.nviol++;
	if (s.nviol > 200 && s.seenKeys.count(key)) return;
	s.seenKeys.insert(key);
	if (s.viol) {
		fprintf(s.viol, "{\"key\":\"%s\",\"part\":\"%s\",\"case\":%llu,\"detail\":\"%s\"}\n", jesc(key).c_str(), jesc(s.curPart).c_str(), (unsigned long long)s.curCase, jesc(detail.substr(0, 1500)).c_str());
		fflush(s.viol);
	}
	fprintf(stderr, "viol key=%s part=%s case=%llu %s\n", key.c_str(), s.curPart.c_str(), (unsigned long long)s.curCase, detail.substr(0, 600).c_str());
}
[[noreturn]] inline void fail(const std::string& key, const std::string& detail) { throw Violation{key, detail}; }
#define VF_CHECK(cond, key, detail) do { if (!(cond)) vf::fail(key, std::string("(" #cond ") ") + (detail)); } while (0)
#define VF_EQ(a, b, key, detail) do { if (!((a) == (b))) vf::fail(key, std::string("(" #a " == " #b ") ") + (detail)); } while (0)

struct Part {
	const char *name; uint64_t quick, thorough; std::function<void(Rng&, uint64_t)> fn; bool cpuWatch; unsigned wallLimit;
};
inline std::vector<Part>& parts() { static std::vector<Part> *p = new std::vector<Part>; return *p; }
struct Reg {
	Reg(const char *name, uint64_t q, uint64_t t, std::function<void(Rng&, uint64_t)> fn, bool cpuWatch = true, unsigned wallLimit = 0)
	{ parts().push_back(Part{name, q, t, fn, cpuWatch, wallLimit}); }
};
// pure, CPU-bound part (CPU-time watchdog per case)
#define VF_PART(name, q, t) static void vf_part_##name(vf::Rng& rng, uint64_t idx); static vf::Reg vf_reg_##name(#name, q, t, vf_part_##name); static void vf_part_##name(vf::Rng& rng, uint64_t idx)
// the same part with some very long inputs
#define VF_LONG(name, base, q, t, bud) VF_PART(name, q, t) { rng.budget = (bud); vf_part_##base(rng, idx); vf::count("long-inputs"); }
// part that blocks / does I/O (wall-clock watchdog per case, no timer signals)
#define VF_IOPART(name, q, t, wall) static void vf_part_##name(vf::Rng& rng, uint64_t idx); static vf::Reg vf_reg_##name(#name, q, t, vf_part_##name, false, wall); static void vf_part_##name(vf::Rng& rng, uint64_t idx)

inline volatile uint64_t& tickSeq() { static volatile uint64_t v = 0; return v; }
inline volatile int& tickN() { static volatile int v = 0; return v; }
inline const int cpuLimitTicks() { return 40; }
inline void onTick(int)
{
	State& s = st();
	if (tickSeq() != s.prog->seq) { tickSeq() = s.prog->seq; tickN() = 0; return; }
	if (++tickN() >= cpuLimitTicks()) {
		char buf[256];
		int n = snprintf(buf, sizeof(buf), "{\"key\":\"nontermination\",\"part\":\"%s\",\"case\":%llu,\"detail\":\"one case used more than %d s of CPU time\"}\n", s.prog->part, (unsigned long long)s.prog->caseIdx, cpuLimitTicks());
		if (s.viol) { ssize_t r = write(fileno(s.viol), buf, n); (void)r; }
		_exit(1);
	}
}
// What every thread of this process is doing: tid -> (state, context switches). Threads that existed before the
// first case (the sanitizer's own) and the caller are left out.
inline std::set<int>& ownTids() { static std::set<int> *s = new std::set<int>; return *s; }
inline int selfTid() { return (int)syscall(SYS_gettid); }
inline std::map<int, std::pair<char, uint64_t>> threadStates()
{
	std::map<int, std::pair<char, uint64_t>> r; DIR *d = opendir("/proc/self/task"); if (!d) return r;
	while (struct dirent *e = readdir(d)) {
		int t = atoi(e->d_name); if (t <= 0 || t == selfTid() || (t != getpid() && ownTids().count(t))) continue;
		char path[64]; snprintf(path, sizeof(path), "/proc/self/task/%d/status", t); FILE *fp = fopen(path, "r"); if (!fp) continue;
		char line[256], state = '?'; uint64_t sw = 0; unsigned long long v;
		while (fgets(line, sizeof(line), fp)) { if (!strncmp(line, "State:", 6)) { const char *q = line + 6; while (*q == ' ' || *q == '\t') q++; state = *q; } else if (sscanf(line, "voluntary_ctxt_switches: %llu", &v) == 1 || sscanf(line, "nonvoluntary_ctxt_switches: %llu", &v) == 1) sw += v; }
		fclose(fp); r[t] = {state, sw};
	}
	closedir(d); return r;
}
// nobody ran between the two snapshots although everybody could have: all threads sleep and none was switched in
// (the main thread may also be polling, which must show as progress), and no child process is left to wait for
inline bool allBlocked(const std::map<int, std::pair<char, uint64_t>>& a, const std::map<int, std::pair<char, uint64_t>>& b)
{
	siginfo_t si; if (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 || errno != ECHILD) return false;
	if (a.size() != b.size() || a.empty()) return false;
	for (auto& x : a) {
		auto y = b.find(x.first); if (y == b.end()) return false;
		bool same = x.second.first == 'S' && y->second.first == 'S' && x.second.second == y->second.second;
		if (!same && !(x.first == getpid() && y->second.second >= x.second.second + 20)) return false;
	}
	return a.size() > 1 || a.begin()->second.second == b.begin()->second.second;
}
struct WallDog {
	pthread_t th; std::atomic<bool> stop{false}; bool on = false; unsigned limit = 0;
	static void *run(void *p) {
		WallDog *w = (WallDog*)p; uint64_t seq = st().prog->seq; double acc = 0; std::map<int, std::pair<char, uint64_t>> half; bool haveHalf = false;
		while (!w->stop) {
			struct timespec ts = {0, 200 * 1000 * 1000}; nanosleep(&ts, 0);
			if (seq != st().prog->seq) { seq = st().prog->seq; acc = 0; haveHalf = false; } else acc += 0.2;
			if (acc > w->limit / 2.0 && !haveHalf) { half = threadStates(); haveHalf = true; }
			if (acc > w->limit) {
				char buf[320]; auto now = threadStates(); bool definite = allBlocked(half, now);
				int n = snprintf(buf, sizeof(buf), "{\"key\":\"hang\",\"definite\":%d,\"part\":\"%s\",\"case\":%llu,\"detail\":\"one case blocked for more than %u s%s\"}\n", (int)definite, st().prog->part, (unsigned long long)st().prog->caseIdx, w->limit, definite ? " (every thread asleep, none was scheduled)" : "");
				if (st().viol) { ssize_t r = write(fileno(st().viol), buf, n); (void)r; }
				_exit(1);
			}
		}
		return 0;
	}
	void start(unsigned lim) { limit = lim; stop = false; on = true; sigset_t all, old; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old); pthread_create(&th, 0, run, this); pthread_sigmask(SIG_SETMASK, &old, 0); }
	void finish() { if (on) { stop = true; pthread_join(th, 0); on = false; } }
};

inline uint64_t caseSeed(const std::string& part, uint64_t idx) { return mix(st().seed * 0x9E3779B97F4A7C15ull ^ hashStr(part) ^ mix(idx)); }

inline void writeOut()
{
	State& s = st();
	if (s.outPath.empty()) return;
	FILE *fp = fopen((s.outPath + ".json").c_str(), "w"); if (!fp) return;
	fprintf(fp, "{\"evaluations\":%llu,\"violations\":%u,\"distinct\":%llu,\"dropped\":%llu,\"counts\":{", (unsigned long long)s.evaluations, s.nviol, (unsigned long long)s.distinct.size(), (unsigned long long)s.distinctDropped);
	bool first = true;
	for (auto& c : s.counts) { fprintf(fp, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
	fprintf(fp, "},\"samples\":["); first = true;
	for (auto& c : s.samples) { fprintf(fp, "%s\"%s\"", first ? "" : ",", jesc(c.substr(0, 400)).c_str()); first = false; }
	fprintf(fp, "],\"done\":true}\n"); fclose(fp);
	fp = fopen((s.outPath + ".hash").c_str(), "wb"); if (!fp) return;
	for (uint64_t h : s.distinct) fwrite(&h, 8, 1, fp);
	fclose(fp);
}

inline int mainLoop(int argc, char **argv)
{
	State& s = st();
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
		else if (k == "--tier") s.thorough = v == "thorough";
		else if (k == "--shard") s.shard = atoi(v.c_str());
		else if (k == "--shards") s.shards = atoi(v.c_str());
		else if (k == "--part") s.onlyPart = v;
		else if (k == "--case") { s.haveCase = true; s.onlyCase = strtoull(v.c_str(), 0, 10); }
		else if (k == "--out") s.outPath = v;
		else if (k == "--scratch") s.scratch = v;
		else if (k == "--scale") s.scale = atof(v.c_str());
	}
	memset(&s.local, 0, sizeof(s.local)); s.prog = &s.local;
	{ pthread_t t; if (pthread_create(&t, 0, [](void *) -> void* { return 0; }, 0) == 0) pthread_join(t, 0); } // a sanitizer may start its own thread now
	for (auto& t : threadStates()) ownTids().insert(t.first); ownTids().insert(selfTid());
	if (!s.outPath.empty()) {
		s.viol = fopen((s.outPath + ".viol").c_str(), "a");
		int fd = open((s.outPath + ".prog").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) {
			void *p = mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) s.prog = (Progress*)p;
		}
		if (fd >= 0) close(fd);
	}
	for (auto& p : parts()) {
		if (!s.onlyPart.empty() && s.onlyPart != p.name) continue;
		s.curPart = p.name;
		snprintf(s.prog->part, sizeof(s.prog->part), "%s", p.name);
		struct itimerval it; memset(&it, 0, sizeof(it)); WallDog dog;
		if (p.cpuWatch) {
			struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onTick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, 0);
			it.it_interval.tv_sec = it.it_value.tv_sec = 1; setitimer(ITIMER_PROF, &it, 0);
		} else if (p.wallLimit) dog.start(p.wallLimit);
		uint64_t n = s.thorough ? p.thorough : p.quick;
		if (s.scale != 1 && n > 50) n = (uint64_t)std::max(1.0, n * s.scale);
		for (uint64_t i = 0; i < n || (s.haveCase && i <= s.onlyCase); i++) {
			if (s.haveCase) i = s.onlyCase;
			else if ((i + s.shard) % s.shards != 0) continue;
			s.curCase = i; s.prog->caseIdx = i; s.prog->note[0] = 0; s.prog->seq = s.prog->seq + 1;
			Rng rng(caseSeed(p.name, i));
			s.evaluations++;
			static const bool timing = getenv("VF_TIMING") != 0; const clock_t c0 = timing ? clock() : 0; // dev aid: slow cases
			try { p.fn(rng, i); }
			catch (Violation& v) { report(v.key, v.detail); }
			catch (std::exception& e) { report("unexpected-exception", std::string(e.what()) + " | " + s.prog->note); }
			if (timing && clock() - c0 > 2 * CLOCKS_PER_SEC) fprintf(stderr, "SLOW %s %llu %.1f s\n", p.name, (unsigned long long)i, double(clock() - c0) / CLOCKS_PER_SEC);
			if (s.haveCase || s.nviol >= 60) break;
		}
		if (p.cpuWatch) { memset(&it, 0, sizeof(it)); setitimer(ITIMER_PROF, &it, 0); }
		dog.finish();
	}
	writeOut();
	if (s.viol) { fclose(s.viol); s.viol = 0; }
	return 0;
}

template<class Ex, class F> bool throws(F f) { try { f(); } catch (Ex&) { return true; } return false; }

} // vf

#ifdef VF_BOUNDED_NEW
// hostile length fields must surface as std::bad_alloc, not as a sanitizer OOM abort
inline void *vfNew(size_t n) { if (n > (512u << 20)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return vfNew(n); }
void *operator new[](size_t n) { return vfNew(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return n > (512u << 20) ? 0 : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return n > (512u << 20) ? 0 : malloc(n ? n : 1); }
void operator delete(void *p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return vf::mainLoop(argc, argv); }
#endif
