// C31: log.hpp - one complete line per message and no other, priority filter, syslog mapping, ownership of the FILE, error paths.
#include <stdint.h>
#include <string.h>
#include <thread>
#include <time.h>
#include <sys/stat.h>
#include "common.hpp"
#include <cybozu/log.hpp>
using namespace vf;
struct Sys { int pri; std::string s; }; static std::vector<Sys> sysLog; static std::mutex sysM; static int closeFail;
extern "C" { int __real_fclose(FILE *); int __wrap_fclose(FILE *f) { int r = __real_fclose(f); if (closeFail) { closeFail = 0; errno = EIO; return EOF; } return r; }
void __wrap_syslog(int pri, const char *f, ...) { char b[70000]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); std::lock_guard<std::mutex> l(sysM); sysLog.push_back(Sys{ pri, b }); }
void __wrap___syslog_chk(int pri, int, const char *f, ...) { char b[70000]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); std::lock_guard<std::mutex> l(sysM); sysLog.push_back(Sys{ pri, b }); } }
static std::string slurp(const std::string& p) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0) r.append(b, n); fclose(f); return r; }
static int fds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { r.push_back(s.substr(p) + "<no newline>"); break; } r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
// "YYYY-MM-DDTHH:MM:SS..." is not assumed: the prefix must be what cybozu::Time prints for some moment in [b, e]; parsed by hand as digits in order
static bool stamp(const std::string& l, bool msec, time_t b, time_t e, std::string *rest, std::string *why)
{
	// the prefix length is the length of Time::toString in this mode (C21 specifies that text)
	cybozu::Time now(true); std::string t = now.toString(msec); if (l.size() < t.size() + 1 || l[t.size()] != ' ') { *why = "no time prefix"; return false; }
	std::string p = l.substr(0, t.size()); *rest = l.substr(t.size() + 1); time_t lo = b - 1; for (time_t x = lo; x <= e + 1; x++) { cybozu::Time c(x); std::string q = c.toString(msec); size_t k = msec ? q.find_last_of(".") : std::string::npos; std::string q0 = q, p0 = p; if (msec) { if (k == std::string::npos) k = q.size(); q0 = q.substr(0, k); size_t z = q.size() - k; std::string frac = p.substr(k); (void)z; p0 = p.substr(0, k); bool ok = frac.size() == q.size() - k; for (size_t i = 1; i < frac.size() && i < 4; i++) ok &= isdigit((unsigned char)frac[i]) != 0; if (!ok) continue; } if (q0 == p0) return true; }
	*why = "time outside the call: " + p; return false;
}
static std::string msg(Rng& g, bool big) { std::string s; int n = g.chance(1, 10) ? 0 : big && g.chance(1, 8) ? g.below(30000) : g.below(120); bool fm = g.chance(1, 4); for (int i = 0; i < n; i++) { char c = fm && g.chance(1, 6) ? '%' : (char)(g.chance(1, 8) ? 128 + g.below(127) : 32 + g.below(95)); if (c == '\n') c = ' '; s += c; } return s; }
static void put(Rng& g, cybozu::LogPriority p, const std::string& m) { switch (g.below(3)) { case 0: cybozu::PutLog(p, "%s", m.c_str()); break; case 1: cybozu::PutLog(p, "%.*s%s", (int)(m.size() / 2), m.c_str(), m.c_str() + m.size() / 2); break; default: cybozu::Log(p) << m.substr(0, m.size() / 3) << m.substr(m.size() / 3); } }
static int wantSys(int p) { return p == 0 ? LOG_DEBUG : p == 1 ? LOG_INFO : p == 2 ? LOG_WARNING : LOG_CRIT; }
struct Dir { std::string p, top; explicit Dir(size_t longName = 0) { char b[] = "/tmp/vf-log-XXXXXX"; p = top = mkdtemp(b); if (longName) { p += "/" + std::string(longName, 'd'); mkdir(p.c_str(), 0700); } } ~Dir() { for (int i = 0; i < 8; i++) unlink(f(i).c_str()); if (p != top) rmdir(p.c_str()); rmdir(top.c_str()); } std::string f(int i) const { return p + fmt("/%d.log", i); } };
VF_IOPART(history, 4000, 40000, 30)
{
	// random history of target/priority/msec/syslog settings and messages against a model of what each destination must hold
	Dir dir(rng.chance(1, 6) ? 150 + rng.below(100) : 0); cybozu::SetLogFILE(0); cybozu::SetLogPriority(cybozu::LogInfo); cybozu::SetLogUseMsec(false); sysLog.clear(); int fd0 = fds(); std::string d; std::vector<std::string> want[5]; std::vector<bool> ms[5]; std::vector<Sys> wantS; int cur = -1, pri = 1; bool useSys = false, useMs = false; std::map<int, FILE *> own; time_t b = time(0);
	for (int i = 0; i < 2; i++) if (rng.chance(1, 3)) { FILE *f = fopen(dir.f(i).c_str(), "wb"); std::string pre = "old line"; fprintf(f, "%s\n", pre.c_str()); fclose(f); want[i].push_back("\1" + pre); ms[i].push_back(false); }
	for (int k = 5 + rng.below(40); k > 0; k--) { int op = rng.below(12); if (op == 0) { cur = rng.below(3); d += fmt(" open%d", cur); note(d); cybozu::OpenLogFile(dir.f(cur)); useSys = false; }
		else if (op == 1) { int i = 3 + rng.below(2); if (!own[i]) { own[i] = fopen(dir.f(i).c_str(), "wb"); } d += fmt(" set%d", i); cybozu::SetLogFILE(own[i]); cur = i; useSys = false; } else if (op == 2 && rng.chance(1, 3)) { cybozu::SetLogFILE(0); cur = -1; useSys = false; d += " set-null"; } else if (op == 3) { pri = rng.below(4); cybozu::SetLogPriority((cybozu::LogPriority)pri); d += fmt(" pri%d", pri); } else if (op == 4) { useMs = rng.chance(1, 2); if (useMs && rng.chance(1, 2)) cybozu::SetLogUseMsec(); else cybozu::SetLogUseMsec(useMs); d += fmt(" msec%d", useMs); } else if (op == 5) { useSys = rng.chance(1, 2); cybozu::useSyslog(useSys); d += fmt(" syslog%d", useSys); }
		else if (op == 6 && rng.chance(1, 3)) { d += " open-bad"; bool t = throws<cybozu::Exception>([&] { cybozu::OpenLogFile(dir.p + "/no/such"); }); VF_CHECK(t, "open-bad-path", d); count("bad-path"); }
		else if (op == 7 && rng.chance(1, 3)) { int i = rng.below(3); FILE *f = fopen(dir.f(i).c_str(), "ab"); std::string pre = "another writer"; fprintf(f, "%s\n", pre.c_str()); fclose(f); want[i].push_back("\1" + pre); ms[i].push_back(false); d += fmt(" other%d", i); count("other-writer"); }
		else { int p = rng.below(4); std::string m = msg(rng, true); d += fmt(" put%d(%zu)", p, m.size()); note(d); put(rng, (cybozu::LogPriority)p, m); if (p >= pri) { if (cur >= 0) { want[cur].push_back(m); ms[cur].push_back(useMs); } if (useSys) wantS.push_back(Sys{ wantSys(p), m }); count("messages"); } else count("filtered");
			if (cur >= 0 && rng.chance(1, 3)) { auto L = lines(slurp(dir.f(cur))); VF_EQ(L.size(), want[cur].size(), "line-not-yet-written", d); } } }
	int openNow = fds(); cybozu::SetLogFILE(0); int ownN = 0; for (auto& x : own) if (x.second) { ownN++; VF_CHECK(fputs("tail\n", x.second) >= 0 && fflush(x.second) == 0, "foreign-file-closed", d); want[x.first].push_back("\1tail"); ms[x.first].push_back(false); } VF_EQ(fds(), fd0 + ownN, "descriptors", d); VF_CHECK(openNow <= fd0 + ownN + 1, "descriptors-during", d); for (auto& x : own) if (x.second) VF_EQ(fclose(x.second), 0, "foreign-file-closed", d); time_t e = time(0);
	for (int i = 0; i < 5; i++) { auto L = lines(slurp(dir.f(i))); VF_EQ(L.size(), want[i].size(), "line-count", d + fmt(" file %d", i)); for (size_t k = 0; k < L.size() && k < want[i].size(); k++) { const std::string& w = want[i][k]; if (!w.empty() && w[0] == 1) { VF_EQ(L[k], w.substr(1), "existing-text", d); continue; } std::string rest, why; bool ok = stamp(L[k], ms[i][k], b, e, &rest, &why); VF_CHECK(ok, "time-prefix", d + ": " + why); VF_EQ(rest, w, "message", d + fmt(" file %d line %zu", i, k)); } count("lines", L.size()); }
	VF_EQ(sysLog.size(), wantS.size(), "syslog-count", d); for (size_t k = 0; k < sysLog.size() && k < wantS.size(); k++) { VF_EQ(sysLog[k].pri & 7, wantS[k].pri, "syslog-priority", d); std::string s = sysLog[k].s; if (!s.empty() && s.back() == '\n') s.pop_back(); VF_EQ(s, wantS[k].s, "syslog-message", d); } count("syslog", wantS.size()); distinct(hashStr(d)); evals(); if (wantSample()) sample(d.substr(0, 300));
}
VF_IOPART(threads, 300, 4000, 30)
{
	// several threads log at once: every message exactly once as one whole line, in order per thread, times not going back by more than a second
	Dir dir; bool useMs = rng.chance(1, 2), own = rng.chance(1, 3); cybozu::SetLogFILE(0); cybozu::SetLogPriority(cybozu::LogInfo); cybozu::SetLogUseMsec(useMs); FILE *fp = 0; if (own) { fp = fopen(dir.f(0).c_str(), "wb"); if (rng.chance(1, 2)) setvbuf(fp, 0, _IOFBF, 64); cybozu::SetLogFILE(fp); } else cybozu::OpenLogFile(dir.f(0)); sysLog.clear(); bool sy = rng.chance(1, 4); cybozu::useSyslog(sy); int T = 2 + rng.below(6), M = 20 + rng.below(100); uint64_t seed = rng.next(); std::string d = fmt("threads %d messages %d own %d", T, M, own); note(d); std::vector<std::vector<std::string>> sent(T); std::vector<std::thread> v; std::atomic<int> gate(0); time_t b = time(0);
	for (int t = 0; t < T; t++) v.emplace_back([&, t] { Rng g(seed + t); gate++; while (gate < T) sched_yield(); for (int k = 0; k < M; k++) { std::string m = fmt("<%d,%d>", t, k) + msg(g, true) + "<end>"; int p = g.below(4); put(g, (cybozu::LogPriority)p, m); if (p >= 1) sent[t].push_back(m); if (g.chance(1, 10)) sched_yield(); } });
	for (auto& x : v) x.join(); time_t e = time(0); cybozu::SetLogFILE(0); if (fp) fclose(fp); auto L = lines(slurp(dir.f(0))); std::vector<size_t> pos(T); int sw = 0, last = -1; size_t total = 0; for (auto& s : sent) total += s.size(); VF_EQ(L.size(), total, "thread-line-count", d);
	for (auto& l : L) { std::string rest, why; bool ok = stamp(l, useMs, b, e, &rest, &why); VF_CHECK(ok, "thread-time-prefix", d + ": " + why); int t = -1, k; if (sscanf(rest.c_str(), "<%d,%d>", &t, &k) != 2 || t < 0 || t >= T) { vf::fail("torn-line", d + ": " + rest.substr(0, 200)); } VF_CHECK(pos[t] < sent[t].size() && sent[t][pos[t]] == rest, "thread-order-or-torn", d + fmt(" thread %d line %zu: ", t, pos[t]) + rest.substr(0, 100)); pos[t]++; if (t != last) { sw++; last = t; } }
	VF_EQ(sysLog.size(), sy ? total : 0, "thread-syslog", d); count("thread-lines", L.size()); count("switches", sw); distinct(mix(seed) + sw); evals();
}
VF_IOPART(fault, 200, 400, 30)
{
	// a device which takes nothing: the message is reported on stderr, nothing is thrown at the logging site, the descriptor is released
	Dir dir; int fd0 = fds(); cybozu::SetLogFILE(0); cybozu::SetLogPriority(cybozu::LogInfo); cybozu::SetLogUseMsec(false); int save = dup(2); std::string cap = dir.f(5); int c = open(cap.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); std::string m = fmt("lost-%d", (int)rng.below(1000000)) + std::string(rng.below(6000), 'x'); bool own = rng.chance(1, 2); FILE *fp = 0; if (own) { fp = fopen("/dev/full", "wb"); cybozu::SetLogFILE(fp); } else cybozu::OpenLogFile("/dev/full"); fflush(stderr); dup2(c, 2); bool thrown = false; try { put(rng, cybozu::LogError, m); } catch (...) { thrown = true; } fflush(stderr); dup2(save, 2); close(save); close(c);
	std::string err = slurp(cap), d = fmt("own %d size %zu", own, m.size()); VF_CHECK(!thrown, "throws", d); VF_CHECK(err.find(m) != std::string::npos && err.find("ERR") != std::string::npos, "write-error-hidden", d + ": " + err.substr(0, 200)); bool t2 = false; try { cybozu::OpenLogFile(dir.f(1)); } catch (cybozu::Exception&) { t2 = true; } try { cybozu::SetLogFILE(0); } catch (cybozu::Exception&) {} cybozu::SetLogFILE(0); if (fp) { clearerr(fp); fclose(fp); } if (own) VF_CHECK(!t2, "foreign-close", d); VF_EQ(fds(), fd0, "descriptors-after-fault", d); count("write-error");
	{ cybozu::OpenLogFile(dir.f(1)); bool toFile = rng.chance(1, 2); closeFail = 1; bool t = throws<cybozu::Exception>([&] { if (toFile) cybozu::OpenLogFile(dir.f(2)); else cybozu::SetLogFILE(0); }); bool used = closeFail == 0; closeFail = 0; if (used) { VF_CHECK(t, "close-failure-hidden", d); put(rng, cybozu::LogError, "after"); count("close-failure"); } cybozu::OpenLogFile(dir.f(3)); put(rng, cybozu::LogError, "again"); VF_EQ(lines(slurp(dir.f(3))).size(), (size_t)1, "usable-after-close-failure", d); cybozu::SetLogFILE(0); VF_EQ(fds(), fd0, "descriptors-after-close-failure", d); } distinct(m.size() * 2 + own); evals();
}
