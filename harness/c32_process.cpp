// C32: process.hpp - the child gets exactly the arguments and descriptors promised; failures are reported, nothing is left behind.
#include <stdint.h>
#include <string.h>
#include <time.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "common.hpp"
#include <cybozu/process.hpp>
using namespace vf;
// ---- child side: runs before main when VF_CHILD names a report directory; "<dir>;<action>;<value>" ----
static void wr(int fd, const std::string& s) { size_t p = 0; while (p < s.size()) { ssize_t r = write(fd, s.data() + p, s.size() - p); if (r <= 0) _exit(99); p += r; } }
static std::string num(size_t n) { char b[32]; snprintf(b, sizeof(b), "%zu;", n); return b; }
__attribute__((constructor(200))) static void childMain(int argc, char **argv, char **)
{
	const char *e = getenv("VF_CHILD"); if (!e) return; std::string s = e; size_t a = s.find(';'), b = s.find(';', a + 1); std::string dir = s.substr(0, a), act = s.substr(a + 1, b - a - 1); int val = atoi(s.c_str() + b + 1);
	std::string out = num(argc); for (int i = 0; i < argc; i++) out += num(strlen(argv[i])) + argv[i]; std::string f; size_t nf = 0;
	for (int i = 0; i < 5000; i++) { struct stat st; int fl = fcntl(i, F_GETFL); if (fl == -1 || fstat(i, &st)) continue; nf++; f += num(i) + num(fl & O_ACCMODE) + num(st.st_dev) + num(st.st_ino) + num(st.st_rdev); }
	out += num(nf) + f; std::string t = dir + "/tmp", r = dir + "/report"; int fd = open(t.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0) _exit(98); wr(fd, out); close(fd); rename(t.c_str(), r.c_str());
	if (act == "gate") { std::string g = dir + "/gate"; for (int i = 0; i < 60000 && access(g.c_str(), F_OK) != 0; i++) usleep(1000); _exit(val); }
	if (act == "kill") { signal(val, SIG_DFL); sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, 0); raise(val); _exit(97); }
	_exit(val);
}
// ---- parent side ----
static int failFork, failPipe;
extern "C" { pid_t __real_fork(void); int __real_pipe(int *); pid_t __wrap_fork(void) { if (failFork) { errno = EAGAIN; return -1; } return __real_fork(); } int __wrap_pipe(int *p) { if (failPipe) { errno = EMFILE; return -1; } return __real_pipe(p); } }
static int fds() { int n = 0; for (int i = 0; i < 5000; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static std::string slurp(const std::string& p) { std::string r; int f = open(p.c_str(), O_RDONLY); if (f < 0) return r; char b[65536]; ssize_t n; while ((n = read(f, b, sizeof(b))) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append(b, n); close(f); return r; }
static size_t get(const std::string& s, size_t& p) { size_t v = strtoull(s.c_str() + p, 0, 10); p = s.find(';', p) + 1; return v; }
struct Fd { int fd, mode; size_t dev, ino, rdev; }; struct Rep { std::vector<std::string> arg; std::vector<Fd> fd; };
static Rep parse(const std::string& s) { Rep r; size_t p = 0, n = get(s, p); for (size_t i = 0; i < n; i++) { size_t l = get(s, p); r.arg.push_back(s.substr(p, l)); p += l; } n = get(s, p); for (size_t i = 0; i < n; i++) { Fd f; f.fd = get(s, p); f.mode = get(s, p); f.dev = get(s, p); f.ino = get(s, p); f.rdev = get(s, p); r.fd.push_back(f); } return r; }
static int fdTop = 1024; static void noop(int) {} static std::string self; static std::string exitMark; static pid_t mainPid;
static void atEnd() { if (getpid() != mainPid && !exitMark.empty()) { int f = open(exitMark.c_str(), O_CREAT | O_WRONLY, 0600); if (f >= 0) close(f); } }
static void once() { static bool done; if (done) return; done = true; char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof(b)); self.assign(b, n); mainPid = getpid(); atexit(atEnd); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &rl); fdTop = (int)rl.rlim_cur; struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = noop; sigaction(SIGUSR2, &sa, 0); }
struct Storm { timer_t t; bool on; Storm(bool on, int us) : on(on) { if (!on) return; struct sigevent se; memset(&se, 0, sizeof(se)); se.sigev_notify = SIGEV_SIGNAL; se.sigev_signo = SIGUSR2; if (timer_create(CLOCK_MONOTONIC, &se, &t)) { this->on = false; return; } struct itimerspec it; it.it_value.tv_sec = it.it_interval.tv_sec = 0; it.it_value.tv_nsec = it.it_interval.tv_nsec = us * 1000; timer_settime(t, 0, &it, 0); } ~Storm() { if (on) timer_delete(t); } };
struct Dir { std::string p; Dir() { char b[] = "/tmp/vf-proc-XXXXXX"; p = mkdtemp(b); } ~Dir() { static const char *n[] = { "tmp", "report", "gate", "buf", "mark", "noexec", "garbage", "held" }; for (auto x : n) unlink((p + "/" + x).c_str()); rmdir(p.c_str()); } };
static std::string word(Rng& g) { std::string s; int n = g.chance(1, 6) ? 0 : g.chance(1, 12) ? g.below(3000) : g.below(20); for (int i = 0; i < n; i++) { static const char sp[] = " \"'\\$`\n\t*;&|<>-%"; s += g.chance(1, 3) ? sp[g.below(sizeof(sp) - 1)] : (char)(1 + g.below(255)); } return s; }
static bool isNull(const Fd& f) { struct stat st; return stat("/dev/null", &st) == 0 && f.rdev == st.st_rdev && f.ino == st.st_ino; }
// some of stdin, stdout, stderr closed for a while
struct NoStd { int sv[3]; explicit NoStd(int mask) { for (int i = 0; i < 3; i++) { sv[i] = -1; if (mask >> i & 1) { sv[i] = fcntl(i, F_DUPFD, 600); if (sv[i] >= 0) { fcntl(sv[i], F_SETFD, FD_CLOEXEC); close(i); } } } } ~NoStd() { for (int i = 0; i < 3; i++) if (sv[i] >= 0) { dup2(sv[i], i); close(sv[i]); } } };
VF_IOPART(child, 1500, 20000, 40)
{
	once(); Dir dir; int fd0 = fds(); std::string d; std::vector<std::string> arg; int n = rng.chance(1, 20) ? 200 + (int)rng.below(rng.chance(1, 2) ? 100 : 3000) : rng.below(8); bool shortForm = rng.chance(1, 4), closeIo = shortForm ? false : rng.chance(2, 3); if (shortForm) n = 1 + rng.below(9); for (int i = 0; i < n; i++) { std::string w = word(rng); if (shortForm && rng.chance(1, 2)) w = "p" + w; arg.push_back(w); }
	// descriptors the child must not see; some standard ones closed in the parent
	std::vector<int> held; for (int k = rng.below(5); k > 0; k--) { int f = open((dir.p + "/held").c_str(), O_CREAT | O_RDWR, 0600), t = rng.chance(1, 2) ? 3 + rng.below(fdTop - 30) : f; if (t != f && fcntl(t, F_GETFD) == -1) { dup2(f, t); close(f); f = t; } held.push_back(f); } int which = !shortForm && rng.chance(1, 4) ? 1 + rng.below(7) : 0; std::unique_ptr<NoStd> gone(new NoStd(which));
	int kind = rng.below(4), val = kind == 3 ? (rng.chance(1, 2) ? SIGKILL : SIGTERM) : rng.below(256); setenv("VF_CHILD", (dir.p + (kind < 2 ? ";gate;" : kind == 2 ? ";exit;" : ";kill;") + fmt("%d", val)).c_str(), 1); bool storm = rng.chance(1, 3); d = fmt("%d args, short %d closeStdio %d, %zu extra fds, closed %d, kind %d val %d storm %d", n, shortForm, closeIo, held.size(), which, kind, val, storm); struct stat ps[3]; bool has[3]; for (int i = 0; i < 3; i++) has[i] = fstat(i, &ps[i]) == 0;
	cybozu::Process p; VF_CHECK(!p.isValid() && !p.isAlive(), "fresh", d); bool ok; { Storm st(storm, 3000 + rng.below(4000)); if (shortForm) { std::vector<std::string> a = arg; a.resize(9); ok = p.run(self, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); } else ok = p.run(self, arg, closeIo); }
	unsetenv("VF_CHILD"); gone.reset(); for (int f : held) close(f); note(d); VF_CHECK(ok && p.isValid(), "run", d); VF_EQ(fds(), fd0, "descriptors", d);
	if (rng.chance(1, 3)) { cybozu::Process q(p); VF_CHECK(!p.isValid() && !p.isAlive() && q.isValid(), "move", d); if (rng.chance(1, 2)) { cybozu::Process r; r = q; VF_CHECK(!q.isValid() && r.isValid(), "move-assign", d); p = r; } else p = q; const cybozu::Process& s = p; p = s; VF_CHECK(p.isValid(), "move-back", d); count("moves"); }
	std::string rp = dir.p + "/report"; for (int i = 0; i < 60000 && access(rp.c_str(), F_OK) != 0; i++) usleep(500); std::string rep = slurp(rp); VF_CHECK(!rep.empty(), "child-never-ran", d); Rep r = parse(rep);
	int code = 12345; if (kind < 2) { VF_CHECK(p.isAlive(&code) && p.isAlive(), "alive", d); VF_EQ(code, 0, "alive-code", d); int g = open((dir.p + "/gate").c_str(), O_CREAT | O_WRONLY, 0600); close(g); }
	bool alive = true; for (int i = 0; i < 60000 && (alive = p.isAlive(&code)); i++) usleep(500); VF_CHECK(!alive, "never-ends", d); VF_EQ(code, kind == 3 ? -1 : val, "exit-code", d); VF_CHECK(!p.isAlive(), "dead-stays-dead", d); VF_CHECK(waitpid(-1, 0, WNOHANG) == -1 && errno == ECHILD, "zombie", d);
	std::vector<std::string> want(1, self); for (auto& a : arg) if (!shortForm || !a.empty()) want.push_back(a); VF_CHECK(r.arg == want, "arguments", d + fmt(" got %zu want %zu", r.arg.size(), want.size()));
	int seen = 0; for (auto& f : r.fd) { if (f.fd >= 3) { vf::report("inherited-descriptor", d + fmt(" fd %d", f.fd)); continue; } seen |= 1 << f.fd; if (closeIo) { VF_CHECK(isNull(f), "stdio-not-null", d + fmt(" fd %d", f.fd)); VF_CHECK(f.fd == 0 ? f.mode != O_WRONLY : f.mode != O_RDONLY, "stdio-mode", d + fmt(" fd %d mode %d", f.fd, f.mode)); } else if (has[f.fd]) VF_CHECK(f.ino == (size_t)ps[f.fd].st_ino && f.dev == (size_t)ps[f.fd].st_dev, "stdio-kept", d + fmt(" fd %d", f.fd)); } if (closeIo) VF_EQ(seen, 7, "stdio-missing", d); else for (int i = 0; i < 3; i++) if (has[i]) VF_CHECK(seen >> i & 1, "stdio-lost", d);
	count(closeIo ? "null-stdio" : "kept-stdio"); if (kind < 2) count("alive"); if (kind == 3) count("killed"); if (!held.empty()) count("descriptors-hidden"); distinct(hashStr(d + rep)); evals(); if (wantSample()) sample(d);
}
VF_IOPART(failure, 2000, 20000, 40)
{
	// exec/fork/pipe failures: false, invalid, no zombie, no descriptor, nothing of the parent's repeated in the child
	once(); Dir dir; int fd0 = fds(); std::string mark = dir.p + "/mark", buf = dir.p + "/buf"; exitMark = mark; FILE *fp = fopen(buf.c_str(), "wb"); std::string text = fmt("pending %d", (int)rng.below(100000)); fputs(text.c_str(), fp); std::string exe; int k = rng.below(7); switch (k) { case 0: exe = dir.p + "/missing"; break; case 1: exe = dir.p; break; case 2: exe = dir.p + "/noexec"; close(open(exe.c_str(), O_CREAT | O_WRONLY, 0600)); break; case 3: exe = ""; break; case 4: { exe = dir.p + "/garbage"; int f = open(exe.c_str(), O_CREAT | O_WRONLY, 0700); wr(f, "\x01\x02 not a program"); close(f); break; } case 5: exe = self; failFork = 1; break; default: exe = self; failPipe = 1; } bool storm = rng.chance(1, 2); int reps = 1 + rng.below(2); std::string d = fmt("failure %d storm %d closeStdio", k, storm); cybozu::Process p;
	for (int i = 0; i < reps; i++) { bool ok, ci = rng.chance(1, 2); int no = rng.chance(1, 3) ? 1 + rng.below(7) : 0; { NoStd gone(no); Storm st(storm, 300 + rng.below(6000)); ok = p.run(exe, std::vector<std::string>(rng.below(3), "x"), ci); } d += fmt(" %d closed %d", ci, no); if (no) count("closed-std-failures"); if (ok) { failFork = failPipe = 0; exitMark.clear(); for (int t = 0; t < 200 && p.isAlive(); t++) usleep(1000); fclose(fp); vf::fail("failed-start-reported-as-success", d); } VF_CHECK(!p.isValid() && !p.isAlive(), "valid-after-failure", d); errno = 0; pid_t w = waitpid(-1, 0, WNOHANG); VF_CHECK(w == -1 && errno == ECHILD, "zombie-after-failure", d + fmt(" waitpid %d", (int)w)); } failFork = failPipe = 0; exitMark.clear(); fclose(fp); VF_EQ(slurp(buf), text, "buffer-written-twice", d); VF_CHECK(access(mark.c_str(), F_OK) != 0, "exit-handlers-run-in-child", d); VF_EQ(fds(), fd0, "descriptors-after-failure", d); count("failures"); distinct(hashStr(d) + rng.next() % 64); evals();
	std::string s = word(rng), e; for (char c : s) { if (c == '"') e += '\\'; e += c; } VF_EQ(cybozu::process::escape(s), e, "escape", hex(s));
}
