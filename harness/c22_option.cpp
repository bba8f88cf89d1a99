// C22: command line parser vs a model of its documented grammar.
#include <stdint.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <sys/mman.h>
#include <string.h>
#include <string>
#include <list>
#include <algorithm>
#include "common.hpp"
static std::string g_out; struct ExitCalled { int code; };
static void my_exit(int c) { throw ExitCalled{ c }; }
#include <cybozu/exception.hpp>
#include <cybozu/atoi.hpp>
#include <sstream>
#include <iostream>
#include <vector>
#include <map>
#include <limits>
namespace std { using ::my_exit; }
#define exit my_exit
#include <cybozu/option.hpp>
#undef exit
// everything written to standard output while it lives, whatever function was used
struct Cap {
	static int fd() { static int f = memfd_create("vf", MFD_CLOEXEC); return f; } int saved;
	Cap() { fflush(stdout); std::cout.flush(); saved = dup(1); dup2(fd(), 1); g_out.clear(); }
	~Cap() { fflush(stdout); std::cout.flush(); dup2(saved, 1); close(saved); off_t n = lseek(fd(), 0, SEEK_END); if (n > 0) { g_out.resize((size_t)n); if (pread(fd(), &g_out[0], (size_t)n, 0) != n) abort(); if (ftruncate(fd(), 0)) abort(); lseek(fd(), 0, SEEK_SET); } }
};
using namespace vf; typedef __int128 I;
enum K { Flag, I32, I8, U8, I16, U16, U32, I64, U64, Str, Dbl, VecI, VecS, ListI, KN };
static const char *kn[] = { "flag", "int", "int8", "uint8", "int16", "uint16", "uint32", "int64", "uint64", "str", "double", "vecint", "vecstr", "listint" };
struct Slot { bool b = false; int i32 = 0; int8_t i8 = 0; uint8_t u8 = 0; int16_t i16 = 0; uint16_t u16 = 0; unsigned u32 = 0; long long i64 = 0; unsigned long long u64 = 0; std::string s; double d = 0; std::vector<int> vi; std::vector<std::string> vs; std::list<int> li; };
static std::string dec(I v) { bool n = v < 0; if (n) v = -v; std::string r; do r.insert(r.begin(), (char)('0' + (int)(v % 10))); while (v /= 10); return (n ? "-" : "") + r; }
static std::string show(K k, const Slot& s) { std::string r; switch (k) { case Flag: return s.b ? "1" : "0"; case I32: return dec(s.i32); case I8: return dec(s.i8); case U8: return dec(s.u8); case I16: return dec(s.i16); case U16: return dec(s.u16); case U32: return dec(s.u32); case I64: return dec(s.i64); case U64: return dec(s.u64); case Str: return s.s; case Dbl: return fmt("%.17g", s.d); case VecI: for (int x : s.vi) r += fmt("%d,", x); return r; case VecS: for (auto& x : s.vs) r += x + ","; return r; case ListI: for (int x : s.li) r += fmt("%d,", x); return r; default: return ""; } }
static const void *addr(K k, const Slot& s) { switch (k) { case Flag: return &s.b; case I32: return &s.i32; case I8: return &s.i8; case U8: return &s.u8; case I16: return &s.i16; case U16: return &s.u16; case U32: return &s.u32; case I64: return &s.i64; case U64: return &s.u64; case Str: return &s.s; case Dbl: return &s.d; case VecI: return &s.vi; case VecS: return &s.vs; default: return &s.li; } }
template<class F> static void withPtr(K k, Slot& s, F f) { switch (k) { case Flag: f(&s.b); break; case I32: f(&s.i32); break; case I8: f(&s.i8); break; case U8: f(&s.u8); break; case I16: f(&s.i16); break; case U16: f(&s.u16); break; case U32: f(&s.u32); break; case I64: f(&s.i64); break; case U64: f(&s.u64); break; case Str: f(&s.s); break; default: f(&s.d); } }
static void limits(K k, I *lo, I *hi) { int bits = k == I8 || k == U8 ? 8 : k == I16 || k == U16 ? 16 : k == I64 || k == U64 ? 64 : 32; bool u = k == U8 || k == U16 || k == U32 || k == U64; *lo = u ? 0 : -((I)1 << (bits - 1)); *hi = u ? ((I)1 << bits) - 1 : ((I)1 << (bits - 1)) - 1; }
static bool num(const std::string& t, bool sgn, I *out) { size_t i = 0; bool neg = false; if (sgn && i < t.size() && t[i] == '-') { neg = true; i++; } if (i >= t.size()) return false; I v = 0; for (; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return false; v = std::min<I>(v * 10 + t[i] - '0', (I)1 << 100); } *out = neg ? -v : v; return true; }
static bool conv(K k, const std::string& t0, std::string *out)
{
	std::string t = t0; if (k == Str || k == VecS) { *out = t; return true; } if (k == VecI || k == ListI) k = I32; if (k == Flag) k = Dbl; if (k == Dbl) { char *e; *out = fmt("%.17g", strtod(t.c_str(), &e)); return e != t.c_str() && !*e; }
	I lo, hi, v = 0; limits(k, &lo, &hi); if (t.compare(0, 2, "0x") == 0) { std::string h = t.substr(2); if (h.empty()) return false; for (char c : h) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return false; v = std::min<I>(v * 16 + d, (I)1 << 100); } if (v > hi) return false; *out = dec(v); return true; }
	I f = 1; if (t.size() > 1) { switch (t.back()) { case 'k': f = 1000; break; case 'm': f = 1000000; break; case 'g': f = 1000000000; break; case 'K': f = 1024; break; case 'M': f = 1 << 20; break; case 'G': f = 1 << 30; break; default: break; } if (f > 1) t.pop_back(); } if (!num(t, lo < 0, &v)) return false; v *= f; if (v < lo || v > hi) return false; *out = dec(v); return true;
}
static std::string genNum(Rng& g, K k) { I lo, hi; limits(k == VecI || k == ListI ? I32 : k, &lo, &hi); static const char suf[] = "kmgKMG"; static const long fac[] = { 1000, 1000000, 1000000000, 1024, 1 << 20, 1 << 30 }; int e = g.below(6); switch (g.below(8)) { case 0: return dec(hi + (I)g.range(-2, 2)); case 1: return dec(lo + (I)g.range(-2, 2)); case 2: return dec((I)(int64_t)g.edgy64()); case 3: return fmt("0x%llx", (unsigned long long)(g.chance(1, 2) ? (uint64_t)hi + g.below(3) - 1 : g.edgy64() >> g.below(60))); case 4: return dec(hi / fac[e] + (I)g.range(-1, 1)) + suf[e]; case 5: return dec(lo / fac[e] + (I)g.range(-1, 1)) + suf[e]; case 6: return dec(g.below(200)) + (g.chance(1, 2) ? std::string(1, suf[e]) : ""); default: return dec(g.below(100)); } }
static std::string genVal(Rng& g, K k) { if (g.chance(1, 14)) return g.pick(std::vector<std::string>{ "", "x", "12x", "-", "k", "0x", "0xg", "-1", "--", "1.5", "=", " 1", "-k", "3kk", "-0", "007", "0X11", "0X1F", "+5", "1e3", "0x1k", "00x1" }); if (k == Str || k == VecS) return g.from("abc xyz-019=./", g.len(10)); if (k == Dbl) return fmt("%.*g", (int)g.range(1, 15), (double)(int64_t)g.next() / (double)(1ull << g.below(63))); if (k == Flag) return g.chance(1, 2) ? "0" : "1"; return genNum(g, k); }
struct Decl { K k; std::string name; bool must; Slot s; std::string val; bool set; };
VF_PART(parse, 30000, 1200000)
{
	Rng& g = rng; static const std::vector<std::string> pool = { "n", "num", "-num", "x", "s", "name", "v", "vec", "V", "file", "q", "opt1", "--", "a=b", "_" }; std::vector<std::string> nm = pool; for (size_t i = nm.size(); i > 1; i--) std::swap(nm[i - 1], nm[g.below(i)]);
	size_t nOpt = g.below(7), nPar = g.below(3); int tail = g.below(3); std::list<Decl> opts, pars; Decl rem; cybozu::Option opt; std::string d = "decl:"; std::vector<std::string> after; std::vector<std::string> delims;
	for (size_t i = 0; i < nOpt; i++) { opts.push_back(Decl()); Decl& o = opts.back(); o.k = (K)g.below(KN); o.name = nm[i]; o.must = false; o.set = false; d += fmt(" -%s:%s", o.name.c_str(), kn[o.k]);
		if (o.k == Flag) { if (g.chance(1, 4)) { bool dv = g.chance(1, 2); opt.appendOpt(&o.s.b, dv, o.name.c_str(), "help"); o.k = Flag; o.val = dv ? "1" : "0"; o.must = false; d += "=" + o.val; o.name += ""; o.s.i32 = 1; /* valued bool */ } else { o.s.b = g.chance(1, 2); opt.appendBoolOpt(&o.s.b, o.name.c_str(), "help"); VF_CHECK(!o.s.b, "bool-default", o.name); } }
		else if (o.k == VecI) { if (g.chance(1, 4)) o.s.vi.push_back(5); opt.appendVec(&o.s.vi, o.name.c_str(), "help"); } else if (o.k == VecS) opt.appendVec(&o.s.vs, o.name.c_str()); else if (o.k == ListI) opt.appendVec(&o.s.li, o.name.c_str()); else if (g.chance(1, 4)) { o.must = true; d += "!"; withPtr(o.k, o.s, [&](auto *p) { if constexpr (!std::is_same<decltype(p), bool *>::value) opt.appendMust(p, o.name.c_str(), "help"); }); } else withPtr(o.k, o.s, [&](auto *p) { typedef typename std::remove_pointer<decltype(p)>::type T; T dv = T(); if constexpr (std::is_same<T, std::string>::value) dv = "dflt"; else dv = (T)g.below(100); opt.appendOpt(p, dv, o.name.c_str(), "help"); VF_CHECK(*p == dv, "opt-default", o.name); });
		o.val = show(o.k, o.s); }
	for (size_t i = 0; i < nPar; i++) { pars.push_back(Decl()); Decl& o = pars.back(); do o.k = (K)(I32 + g.below(Dbl)); while (o.k > Dbl); o.name = fmt("par%zu", i); o.must = true; o.set = false; withPtr(o.k, o.s, [&](auto *p) { opt.appendParam(p, o.name.c_str(), "ph"); }); o.val = show(o.k, o.s); d += " " + o.name + ":" + kn[o.k]; }
	rem.set = false; rem.must = false; rem.k = KN; if (tail == 1) { pars.push_back(Decl()); Decl& o = pars.back(); o.k = g.chance(1, 2) ? I32 : Str; o.must = false; o.set = false; o.name = "last"; if (o.k == I32) { opt.appendParamOpt(&o.s.i32, 77, "last"); VF_EQ(o.s.i32, 77, "param-default", ""); } else { opt.appendParamOpt(&o.s.s, "seventy", "last"); VF_CHECK(o.s.s == "seventy", "param-default", o.s.s); } o.val = show(o.k, o.s); d += fmt(" [%s]", kn[o.k]); } else if (tail == 2) { rem.k = g.chance(1, 2) ? VecI : VecS; rem.name = "rest"; if (rem.k == VecI) opt.appendParamVec(&rem.s.vi, "rest", "rh"); else opt.appendParamVec(&rem.s.vs, "rest"); d += fmt(" rest:%s", kn[rem.k]); }
	if (tail) { Slot z; VF_CHECK(throws<cybozu::Exception>([&] { opt.appendParam(&z.i32, "late"); }), "late-param", d); VF_CHECK(throws<cybozu::Exception>([&] { opt.appendParamOpt(&z.i32, 3, "late"); }), "late-param", d); VF_CHECK(throws<cybozu::Exception>([&] { opt.appendParamVec(&z.vi, "late"); }), "late-param", d); } if (!opts.empty()) { Slot z; VF_CHECK(throws<cybozu::Exception>([&] { opt.appendOpt(&z.i32, 1, opts.front().name.c_str()); }), "dup-opt", d); } { Slot z; VF_CHECK(throws<cybozu::Exception>([&] { opt.appendBoolOpt(&z.b, fmt("%dx", (int)g.below(10)).c_str()); }), "digit-opt", d); VF_CHECK(throws<cybozu::Exception>([&] { opt.appendOpt(&z.i32, 1, "0"); }), "digit-opt", d); }
	bool help = g.chance(1, 3); const std::string hname = g.chance(1, 2) ? "h" : "vhelp"; if (help) opt.appendHelp(hname.c_str(), "HELP"); bool keepRest = false; if (g.chance(1, 2)) { delims.push_back("---"); keepRest = g.chance(2, 3); opt.setDelimiter("---", keepRest ? &after : 0); if (g.chance(1, 2)) { delims.push_back("run"); opt.appendDelimiter("run"); } } if (g.chance(1, 20)) { opt.clearDelimiterList(); delims.clear(); }
	bool twice = g.chance(1, 6); if (twice) { const char *first[] = { "p", "---", "zzz" }; int n1 = 2 + (int)g.below(2); try { Cap cap; opt.parse(delims.empty() ? 1 : n1, first); } catch (ExitCalled&) {} after.clear(); }
	cybozu::Option other(opt); // declarations can be copied; the copy refers to the same variables
	// arguments
	std::vector<std::string> av = { "dir/prog" }; std::vector<Decl *> all; for (auto& o : opts) all.push_back(&o); for (auto& o : all) if (o->must && g.chance(9, 10)) { av.push_back("-" + o->name); av.push_back(genVal(g, o->k)); }
	for (int n = (int)std::min<size_t>(g.upto(6), 40); n > 0; n--) switch (g.below(10)) { default: if (!all.empty()) { Decl *o = all[g.below(all.size())]; av.push_back("-" + o->name); if (o->k >= VecI) for (int j = g.chance(1, 12) ? 0 : 1 + (int)g.upto(4); j > 0; j--) av.push_back(g.budget ? fmt("%d", (int)g.below(1000)) : genVal(g, o->k)); else if ((o->k != Flag || o->s.i32) && g.chance(19, 20)) av.push_back(genVal(g, o->k)); } break; case 6: if (g.chance(1, 3)) av.push_back("-" + g.from("zw", 2)); break; case 7: if (g.chance(1, 3)) av.push_back(delims.empty() || g.chance(1, 4) ? "---" : delims[g.below(delims.size())]); break; case 8: if (help && g.chance(1, 4)) av.push_back("-" + (g.chance(1, 3) ? g.chance(1, 2) ? std::string("he") : hname.substr(0, 1) : hname)); break; case 9: av.push_back(genVal(g, rem.k == VecI ? I32 : Str)); }
	for (auto& p : pars) if (g.chance(5, 6)) av.insert(av.begin() + 1 + g.below(av.size()), genVal(g, p.k)); int start = 1; if (g.chance(1, 8)) { start = 2; if (av.size() < 2) av.push_back("sub"); }
	std::string line; std::vector<Exact *> ex; std::vector<const char *> argv; for (auto& a : av) { line += " [" + a + "]"; ex.push_back(new Exact(a + std::string(1, 0))); argv.push_back(ex.back()->p); } d += " args:" + line; note(d); distinct(hashStr(d)); if (wantSample()) sample(d);
	// model
	bool ok = true, wantExit = false; int next = (int)av.size(); std::vector<std::string> rest; auto isOpt = [](const std::string& t) { return t.size() && t[0] == '-' && !(t.size() > 1 && t[1] >= '0' && t[1] <= '9'); }; auto isDel = [&](const std::string& t) { return std::find(delims.begin(), delims.end(), t) != delims.end(); }; bool claimed = true;
	for (size_t p = start; ok && p < av.size(); p++) { const std::string& t = av[p]; if (isDel(t)) { next = (int)p + 1; rest.assign(av.begin() + p + 1, av.end()); break; } if (isOpt(t)) { if (help && t == "-" + hname) { wantExit = true; break; } Decl *o = 0; for (auto *x : all) if (x->name == t.substr(1)) o = x; if (!o) { ok = false; break; } std::string r; if (o->k == Flag && !o->s.i32) { o->val = "1"; o->set = true; } else if (o->k < VecI) { if (++p >= av.size() || !conv(o->k, av[p], &r)) { if (p < av.size() && (o->k == Dbl || o->k == Flag) && !av[p].empty() && (isdigit((unsigned char)av[p][0]) || strchr("-+. 0123456789inIN", av[p][0]))) claimed = false; ok = false; break; } if (o->k == Flag) { if (r != "0" && r != "1") { claimed = false; ok = false; break; } } if (o->k == Dbl && (av[p][0] == ' ' || av[p].find_first_of("xXnN") != std::string::npos)) { claimed = false; } o->val = r; o->set = true; } else { int n = 0; while (p + 1 < av.size() && !isOpt(av[p + 1]) && !isDel(av[p + 1])) { if (!conv(o->k, av[p + 1], &r)) { ok = false; break; } o->val += r + ","; o->set = true; n++; p++; } if (n == 0) ok = false; } }
		else { Decl *o = 0; for (auto& x : pars) if (!x.set) { o = &x; break; } std::string r; if (o) { if (!conv(o->k, t, &r)) { if (o->k == Dbl) claimed = false; ok = false; break; } if (o->k == Dbl && (t[0] == ' ' || t.find_first_of("xXnN") != std::string::npos)) claimed = false; o->val = r; o->set = true; } else if (tail == 2) { if (!conv(rem.k, t, &r)) { ok = false; break; } rem.val += r + ","; rem.set = true; } else ok = false; } }
	if (ok && !wantExit) { for (auto *x : all) if (x->must && !x->set) ok = false; for (auto& x : pars) if (x.must && !x.set) ok = false; }
	bool got = false, exited = false; try { Cap cap; got = opt.parse((int)argv.size(), argv.data(), start); } catch (ExitCalled& e) { exited = true; VF_EQ(e.code, 0, "exit-code", d); } for (auto *e : ex) delete e; evals();
	if (!claimed) { count("unclaimed"); return; }
	VF_CHECK(exited == wantExit, "help-exit", d); if (exited) { count("help"); VF_CHECK(g_out.find("usage:") != std::string::npos && g_out.find("HELP") != std::string::npos, "usage", g_out); for (auto *x : all) VF_CHECK(g_out.find("-" + x->name) != std::string::npos, "usage-opt", g_out); for (auto& x : pars) VF_CHECK(g_out.find(x.name) != std::string::npos, "usage-param", g_out); return; }
	VF_CHECK(got == ok, ok ? "accept" : "refuse", d + (got ? " parsed" : " refused: " + g_out)); if (!ok) { VF_CHECK(!g_out.empty(), "message", d); count("refused"); // nothing was taken over from the argument that was refused
		for (auto *x : all) if (x->k >= VecI || (x->k == Flag && !x->s.i32)) VF_CHECK(show(x->k, x->s) == x->val, std::string("refused-value-") + kn[x->k], x->name + " got '" + show(x->k, x->s) + "' want '" + x->val + "' " + d); if (tail == 2) VF_CHECK(show(rem.k, rem.s) == rem.val, "refused-value-rest", d); return; } count("accepted"); VF_EQ(opt.getNextPositionOfDelimiter(), next, "delimiter-pos", d); if (keepRest && !delims.empty()) VF_CHECK(after == rest, "delimiter-rest", d); if (next < (int)av.size()) count("delimiter");
	auto one = [&](const Decl& x) { VF_CHECK(show(x.k, x.s) == x.val, std::string("value-") + kn[x.k], x.name + " got '" + show(x.k, x.s) + "' want '" + x.val + "' " + d); VF_EQ(opt.isSet((const char *)addr(x.k, x.s)), x.set, "isSet", x.name + " " + d); count(kn[x.k]); }; for (auto *x : all) one(*x); for (auto& x : pars) one(x); if (tail == 2) { one(rem); } { int z; VF_CHECK(throws<cybozu::Exception>([&] { opt.isSet(&z); }), "isSet-unknown", d); }
	std::ostringstream os; os << opt; for (auto *x : all) VF_CHECK(os.str().find(x->name + "=") != std::string::npos && (x->k == Flag || x->k == Dbl || x->k >= VecI ? true : os.str().find(x->name + "=" + x->val + (x->set ? " (set)" : " (default)")) != std::string::npos), "print", os.str());
}
VF_PART(argc, 200, 2000) { cybozu::Option o; int n; o.appendOpt(&n, 3, "n"); const char *a[] = { "p", "-n", "5" }; { bool p0, p1; { Cap cap; p0 = !o.parse(0, a) && n == 3; p1 = !o.parse(2, a, 3 + (int)rng.below(5)); } VF_CHECK(p0, "argc0", ""); VF_CHECK(p1, "startpos", ""); } VF_CHECK(o.parse(1, a) && n == 3 && !o.isSet(&n), "argc1", ""); VF_CHECK(o.parse(3, a, 1, "x/name") && n == 5, "prog", ""); { Cap cap; o.usage(); } VF_CHECK(g_out.find("usage:name ") == 0, "progname", g_out); o.setDescription("DESC"); o.setUsage("USE"); { Cap cap; o.usage(); } VF_EQ(g_out, std::string("DESC\nUSE\n"), "setusage", g_out); o.setUsage("USE", true); { Cap cap; o.usage(); } VF_CHECK(g_out.find("-n") != std::string::npos, "setusage-opt", g_out); count("argc"); evals(); }
VF_LONG(longparse, parse, 600, 20000, 900)
