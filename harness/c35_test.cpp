// C35: test.hpp - the verdict of a test program follows exactly from its assertions. Each case runs a random program of modules in a forked child.
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <stdexcept>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include "common.hpp"
#define CYBOZU_TEST_DISABLE_AUTO_RUN
#include <cybozu/test.hpp>
using namespace vf;
struct Odd { int x; };
// one step of a module: kind of assertion, whether it must hold, where
struct Step { int kind; bool good; int n; };
enum { Assert, Equal, EqualStr, EqualF, EqualD, EqualSz, Near, Ptr, Array, Fail, ExMsg, Ex, NoEx, Many, ThrowStd, ThrowOdd, KindN };
struct Plan { std::vector<std::vector<Step>> mod; int init, term; /* 0 none, 1 fine, 2 throws std, 3 throws odd */ };
static Plan plan; static std::string trace; // what really ran, in order
static void doStep(const Step& s)
{
	bool g = s.good; trace += fmt("%d", s.kind); trace += g ? '+' : '-';
	switch (s.kind) {
	case Assert: { int v = trace.size() % 7; static int obj; if (v == 0) { int a = g ? 4 : 0; CYBOZU_TEST_ASSERT(a); } else if (v == 1) { double a = g ? 0.25 : 0; CYBOZU_TEST_ASSERT(a); } else if (v == 2) { uint64_t a = g ? uint64_t(1) << 40 : 0; CYBOZU_TEST_ASSERT(a); } else if (v == 3) { int *a = g ? &obj : 0; CYBOZU_TEST_ASSERT(a != 0); } else if (v == 4) { unsigned a = g ? 0x100 : 0; CYBOZU_TEST_ASSERT(a); } else if (v == 5) { int a = g ? -1 : 0; CYBOZU_TEST_ASSERT(a); } else { bool a = g; CYBOZU_TEST_ASSERT(a); } break; }
	case Equal: { int a = 3, b = g ? 3 : 4; CYBOZU_TEST_EQUAL(a, b); break; }
	case EqualStr: { static const char *const W[] = { "", "a", "ab", "abc", "abcd", "abd", "bc", "\xe3\x81\x82" }; int x = trace.size() % 8, y = g ? x : (x + 1 + trace.size() / 8 % 7) % 8; std::string s = W[x], t = W[y]; char *ma = &s[0], *mb = &t[0]; const char *a = ma, *b = mb; switch (trace.size() % 5) { case 0: CYBOZU_TEST_EQUAL(a, b); break; case 1: CYBOZU_TEST_EQUAL(ma, b); break; case 2: CYBOZU_TEST_EQUAL(a, mb); break; case 3: CYBOZU_TEST_EQUAL(ma, mb); break; default: CYBOZU_TEST_EQUAL(s, t); } break; }
	case EqualF: { float z = 0; if (trace.size() % 2) { CYBOZU_TEST_EQUAL(1.5f, g ? 1.5f : nextafterf(1.5f, 2.0f)); } else { CYBOZU_TEST_EQUAL(z, g ? z : -z); } break; }
	case EqualD: { double n = nan(""); if (trace.size() % 2) { CYBOZU_TEST_EQUAL(1.5, g ? 1.5 : nextafter(1.5, 2.0)); } else if (trace.size() / 2 % 2) { CYBOZU_TEST_EQUAL(n, g ? n : 1.0); } else { double z = 0; CYBOZU_TEST_EQUAL(z, g ? z : -z); } break; }
	case EqualSz: { int b = 7 - (int)(trace.size() % 9); size_t a = g ? (size_t)b : trace.size() % 4 ? (size_t)b ^ (size_t(1) << (trace.size() % 60)) : (size_t)b + (size_t(1) << 32); if (trace.size() % 2) { CYBOZU_TEST_EQUAL(a, b); } else { CYBOZU_TEST_EQUAL(b, a); } break; }
	case Near: { int v = trace.size() % 5; if (v == 3) { double x = 2, e = 0.5, y = g ? 2.25 : trace.size() % 2 ? 2.5 : 1.5; CYBOZU_TEST_NEAR(x, y, e); break; } /* a distance of exactly eps alerts */ if (v == 4) { int x = 10, y = g ? 8 : trace.size() % 2 ? 7 : 13; CYBOZU_TEST_NEAR(x, y, 3); break; } double y = g ? 1.0009 : trace.size() % 3 == 0 ? 1.001 + 1e-9 : trace.size() % 3 == 1 ? 0.998 : nan(""); CYBOZU_TEST_NEAR(1.0, y, 0.001); break; }
	case Ptr: { int x[2]; int *a = x, *b = g ? x : x + 1; CYBOZU_TEST_EQUAL_POINTER(a, b); break; }
	case Array: { int a[3] = { 1, 2, 3 }, b[3] = { 1, 2, 3 }; if (!g) b[trace.size() % 3] = 9; CYBOZU_TEST_EQUAL_ARRAY(a, b, 3); break; }
	case Fail: if (!g) CYBOZU_TEST_FAIL("never"); else CYBOZU_TEST_ASSERT(true); break;
	case ExMsg: { int how = trace.size() % 3; CYBOZU_TEST_EXCEPTION_MESSAGE(if (g) throw std::runtime_error("big trouble here"); if (how == 0) throw std::runtime_error("little troubles"); if (how == 1) throw Odd(), std::exception, "trouble h"); break; }
	case Ex: { int how = trace.size() % 2; CYBOZU_TEST_EXCEPTION(if (g) throw std::runtime_error("x"); if (how) throw Odd(), std::exception); break; }
	case NoEx: { int how = trace.size() % 2; CYBOZU_TEST_NO_EXCEPTION(if (!g && how) throw std::runtime_error("x"); if (!g) throw Odd()); break; }
	case Many: for (int i = 0; i < s.n; i++) { CYBOZU_TEST_ASSERT(g); } break;
	case ThrowStd: throw std::runtime_error("stop here"); default: throw Odd();
	}
}
static size_t cur; static void module() { size_t me = cur++; trace += fmt("[%zu", me); for (auto& s : plan.mod[me]) doStep(s); trace += ']'; }
static void init() { trace += 'I'; if (plan.init == 2) throw std::runtime_error("bad init"); if (plan.init == 3) throw Odd(); }
static void term() { trace += 'T'; if (plan.term == 2) throw std::runtime_error(""); if (plan.term == 3) throw Odd(); }
static std::string slurp(int fd) { std::string r; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof(b))) > 0) r.append(b, n); return r; }
VF_IOPART(verdict, 5000, 40000, 30)
{
	plan = Plan(); int n = rng.chance(1, 10) ? 0 : 1 + rng.below(5); int mood = rng.below(3), whole = 0; if (rng.chance(1, 30)) { mood = 0; whole = rng.chance(1, 12) ? 65536 : 128 << rng.below(4); count("whole"); } plan.mod.resize(n); int ok = 0, ng = 0, ex = 0; std::string want, names; std::vector<std::string> nm; std::string d = fmt("%d modules:", n); plan.init = rng.chance(1, 3) ? 1 + (int)(rng.chance(1, 4) ? 1 + rng.below(2) : 0) : 0; plan.term = plan.init ? 1 + (int)(rng.chance(1, 4) ? 1 + rng.below(2) : 0) : 0;
	for (int i = 0; i < n; i++) { static const char *const N[] = { "alpha", "beta", "gamma", "delta", "alpha" }; nm.push_back(N[i]); for (int k = rng.below(8); k > 0; k--) { Step s; s.n = 200 + rng.below(100); s.good = mood == 0 || !rng.chance(1, mood == 1 ? 12 : 3); do s.kind = rng.below(s.good ? (uint64_t)ThrowStd : (uint64_t)KindN); while ((s.good && s.kind == Fail) || (s.kind == Many && !rng.chance(1, 10))); plan.mod[i].push_back(s); } if (whole && i == 0) { Step s; s.kind = Many; s.good = false; s.n = whole; plan.mod[i].push_back(s); } d += '|'; bool dead = false; for (auto& s : plan.mod[i]) { d += fmt(" %d%c", s.kind, s.good ? '+' : '-'); if (s.kind == Many) d += fmt("x%d", s.n); if (dead) continue; if (s.kind >= ThrowStd) { ex++; dead = true; } else if (s.kind == Array) { ok += s.good ? 3 : 2; ng += !s.good; } else if (s.kind == Many) { (s.good ? ok : ng) += s.n; } else if (s.good) ok++; else ng++; } }
	d += fmt(" init %d term %d", plan.init, plan.term); note(d); bool initBad = plan.init >= 2, termBad = plan.term >= 2 && !initBad; char tmp[] = "/tmp/vf-test-XXXXXX"; int fd = mkstemp(tmp); char tmp2[] = "/tmp/vf-test-XXXXXX"; int fd2 = mkstemp(tmp2); unlink(tmp); unlink(tmp2); static const char *const argvs[] = { "/a.b/bin/my_test.exe", "my_test", "./x/my_test", "/my_test.tar.gz" }; const char *av = argvs[rng.below(4)]; fflush(stdout); std::cout.flush(); pid_t p = fork();
	if (p == 0) { dup2(fd, 1); cybozu::test::AutoRun& a = cybozu::test::autoRun; cur = 0; for (int i = 0; i < n; i++) a.append(nm[i].c_str(), module); if (plan.init) a.setup(init, term); char *argv[2] = { const_cast<char *>(av), 0 }; int r = a.run(1, argv); fflush(stdout); std::cout.flush(); ssize_t q = write(fd2, trace.data(), trace.size()); (void)q; _exit(r); }
	int st = 0; VF_CHECK(p > 0 && waitpid(p, &st, 0) == p && WIFEXITED(st), "crash", d); std::string out = slurp(fd), tr = slurp(fd2); close(fd); close(fd2); int code = WEXITSTATUS(st);
	bool bad = ng + ex > 0 || initBad || termBad; VF_EQ(code != 0, bad, "verdict", d + "\n" + out); VF_CHECK(code == 0 || code == 1, "exit-code", d + fmt(" %d", code));
	// every module ran, in order, up to its exception; nothing ran after a failing initialisation
	std::string w; auto sk = [](const std::string& t) { std::string r; for (size_t i = 0; i < t.size(); i++) r += t[i]; return r; }; if (plan.init) w += 'I'; if (!initBad) { for (int i = 0; i < n; i++) { w += fmt("[%d", i); bool dead = false; for (auto& s : plan.mod[i]) { w += fmt("%d", s.kind); w += s.good ? '+' : '-'; if (s.kind >= ThrowStd) { dead = true; break; } } if (!dead) w += ']'; } if (plan.init) w += 'T'; } VF_EQ(sk(tr), w, "what-ran", d);
	if (!initBad && !termBad) { std::string sum = fmt("ctest:name=my_test, module=%d, total=%d, ok=%d, ng=%d, exception=%d\n", n, ok + ng + ex, ok, ng, ex); VF_CHECK(out.size() >= sum.size() && out.find(sum) != std::string::npos, "summary", d + " want " + sum + " got " + out); count("summaries"); } else { VF_CHECK(out.find("ctest:err:") != std::string::npos, "setup-error-shown", d + out); VF_CHECK(out.find("ctest:name=") == std::string::npos, "summary-after-error", d); count("setup-errors"); }
	if (!initBad) { size_t q = 0, f = 0; while ((q = out.find("):ctest:CYBOZU_TEST_", q)) != std::string::npos) { f++; q++; } VF_EQ(f, (size_t)ng, "failures-shown", d + "\n" + out); size_t e = 0; q = 0; while ((q = out.find("is stopped by", q)) != std::string::npos) { e++; q++; } VF_EQ(e, (size_t)ex, "exceptions-shown", d); q = 0; for (auto& x : nm) { size_t z = out.find("ctest:module=" + x + "\n", q); VF_CHECK(z != std::string::npos, "module-shown", d + " " + x); if (z != std::string::npos) q = z + 1; } }
	count("assertions", ok + ng); if (ng) count("failing"); if (ex) count("throwing"); distinct(hashStr(d)); evals(); if (wantSample()) sample(d);
}
