// C36: exception.hpp, env.hpp, json.hpp values, stacktrace.hpp - diagnostics and values keep exactly what was put in.
#include <stdint.h>
#include <string.h>
#include <map>
#include <atomic>
#include <iomanip>
#include <sstream>
#include <thread>
#include "common.hpp"
#include <cybozu/exception.hpp>
#include <cybozu/stacktrace.hpp>
#include <cybozu/env.hpp>
#include <cybozu/json.hpp>
using namespace vf;
static std::string text(Rng& g, bool anyByte = true) { std::string s; int n = g.chance(1, 6) ? 0 : g.chance(1, 15) ? g.below(2000) : g.below(20); for (int i = 0; i < n; i++) s += anyByte ? (char)(1 + g.below(255)) : (char)(33 + g.below(94)); return s; }
struct Custom { int a; }; static std::ostream& operator<<(std::ostream& os, const Custom& c) { return os << "<" << c.a << ">"; }
#ifdef CYBOZU_EXCEPTION_WITH_STACKTRACE
// the trace is one block inserted where the text is first read; it must be there once and name at least one frame
static std::string W(const std::string& s)
{
	const std::string b = "\n<<<STACKTRACE\n", e = "\n>>>STACKTRACE"; size_t p = s.find(b); VF_CHECK(p != std::string::npos, "trace-missing", s.substr(0, 200)); size_t q = s.find(e, p + b.size()); VF_CHECK(q != std::string::npos, "trace-unterminated", s.substr(0, 200));
	std::string tr = s.substr(p + b.size(), q - p - b.size()); VF_CHECK(tr.find("[0x") != std::string::npos, "trace-empty", tr); int n = 1; for (char c : tr) n += c == '\n'; VF_CHECK(n <= 32, "trace-frames", fmt("%d", n)); std::string r = s.substr(0, p) + s.substr(q + e.size()); VF_CHECK(r.find("STACKTRACE") == std::string::npos, "trace-twice", r.substr(0, 300)); count("exception-traces"); return r;
}
#else
static std::string W(const std::string& s) { return s; }
#endif
VF_PART(exception, 30000, 100000)
{
	std::string want = text(rng), d; bool named = rng.chance(3, 4); cybozu::Exception e = named ? cybozu::Exception(want) : cybozu::Exception(); if (!named) want.clear(); d = fmt("name %zu:", want.size());
	auto add = [&](cybozu::Exception& e, std::string& want) { int k = rng.below(9); d += fmt(" %d", k); switch (k) { case 0: { std::string s = text(rng); e << s; want += ":" + s; break; } case 1: { std::string s = text(rng); e << s.c_str(); want += ":" + s; break; } case 2: { int v = (int)rng.next(); e << v; want += fmt(":%d", v); break; } case 3: { uint64_t v = rng.next(); e << v; want += fmt(":%llu", (unsigned long long)v); break; } case 4: { char c = (char)(1 + rng.below(127)); e << c; want += std::string(":") + c; break; } case 5: { double v = (double)rng.range(-1000, 1000) / 8; e << v; std::ostringstream o; o << v; want += ":" + o.str(); break; } case 6: { Custom c = { (int)rng.below(100) }; e << c; want += fmt(":<%d>", c.a); break; } case 7: { int64_t v = (int64_t)rng.next(); e << v; want += fmt(":%lld", (long long)v); break; } default: { int er = rng.chance(1, 4) ? (int)rng.next() : (int)rng.below(140); cybozu::ErrorNo no(er); e << no; want += ":" + std::string(strerror(er)) + fmt("(%d)", er); } } };
	for (int n = rng.below(8); n > 0; n--) { add(e, want); if (rng.chance(1, 5)) VF_EQ(W(e.what()), want, "what-during", d); } VF_EQ(W(e.what()), want, "what", d); VF_EQ(W(e.what()), want, "what-again", d); VF_EQ(W(e.toString()), want, "toString", d);
	cybozu::Exception c(e); std::string cw = want; add(c, cw); VF_EQ(W(c.what()), cw, "copy", d); VF_EQ(W(e.what()), want, "original-after-copy", d); std::string got; try { throw e; } catch (std::exception& x) { got = W(x.what()); } VF_EQ(got, want, "caught", d); try { throw cybozu::Exception("a") << 1 << "b"; } catch (cybozu::Exception& x) { got = W(x.what()); } VF_EQ(got, std::string("a:1:b"), "caught-chain", d); c = e; VF_EQ(W(c.what()), want, "assign", d); { cybozu::Exception q(want, false); VF_EQ(std::string(q.what()), want, "no-trace-wanted", d); }
	size_t size = rng.below(40), len = rng.below(40); std::string raw = text(rng); Exact ex(size); for (size_t i = 0; i < size; i++) ex.p[i] = (char)(i < len ? 1 + rng.below(255) : 0); std::string m = cybozu::exception::makeString((const char *)ex.p, size); size_t wl = std::min<size_t>(std::min(size, len), 16); VF_CHECK(m == std::string((const char *)ex.p, wl), "makeString", fmt("size %zu len %zu: %zu", size, len, m.size())); count("exceptions"); distinct(hashStr(want)); evals();
}
VF_PART(errno_, 12000, 40000)
{
	int er = rng.chance(1, 4) ? (int)rng.next() : (int)rng.range(-5, 140); std::string want = std::string(strerror(er)) + fmt("(%d)", er); errno = 77; VF_EQ(cybozu::ConvertErrorNoToString(er), want, "errno-text", fmt("%d", er)); errno = er; cybozu::ErrorNo no; errno = 0; VF_EQ(no.toString(), want, "errno-captured", fmt("%d", er)); std::ostringstream os; os << cybozu::ErrorNo(er); VF_EQ(os.str(), want, "errno-stream", fmt("%d", er)); if (idx % 50 == 0) { std::vector<std::thread> v; std::atomic<int> bad(0); for (int t = 0; t < 4; t++) v.emplace_back([&, t] { for (int i = 0; i < 30; i++) { int k = (t * 31 + i) % 130; errno = k; cybozu::ErrorNo n; if (n.toString() != cybozu::ConvertErrorNoToString(k) || n.toString().find(fmt("(%d)", k)) == std::string::npos) bad++; } }); for (auto& t : v) t.join(); VF_EQ(bad.load(), 0, "errno-threads", ""); count("errno-threads"); } count("errno"); distinct((uint64_t)er); evals();
}
// a value whose operator<< leaves its mark on the stream it is given
struct Sticky { int v; }; static std::ostream& operator<<(std::ostream& os, const Sticky& s) { return os << s.v << std::hex << std::showbase << std::setfill('#'); }
VF_PART(threads, 300, 6000)
{
	// messages built at the same time by several threads do not mix
	const int T = 2 + rng.below(4), N = 40; uint64_t seed = rng.next(); std::atomic<int> bad(0), go(0); std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { Rng g(seed + t); go++; while (go < T) {} for (int i = 0; i < N; i++) { int a = (int)g.next(); double b = (double)g.range(-100, 100) / 4; uint64_t c = g.next(); Sticky k = { (int)g.below(100000) }; std::ostringstream w; w << "t" << t << ":" << a << ":" << b << ":" << c << ":" << k.v << ":" << k.v << ":x"; cybozu::Exception e(fmt("t%d", t), false); e << a << b << c << k << k << std::string("x"); if (w.str() != e.what()) bad++; } }); for (auto& t : th) t.join(); VF_EQ(bad.load(), 0, "concurrent-messages", fmt("%d threads", T)); count("threads"); evals(T * N); distinct(seed);
}
VF_PART(env, 2000, 30000)
{
	std::string key = "VF_ENV_" + text(rng, false), val = text(rng), d; for (auto& c : key) if (c == '=') c = '_'; bool set = rng.chance(2, 3); if (rng.chance(1, 20)) for (int k = 1 + rng.below(15); k > 0; k--) val += std::string(1 + rng.below(1500), (char)('a' + k)); if (set) setenv(key.c_str(), val.c_str(), 1); else unsetenv(key.c_str()); std::string v = "old", def = text(rng); bool b = cybozu::QueryEnv(v, key); d = fmt("set %d, %zu bytes", set, val.size()); VF_EQ(b, set, "query", d); VF_EQ(v, set ? val : "old", "query-value", d); VF_EQ(cybozu::GetEnv(key, def), set ? val : def, "default", d); if (set) VF_EQ(cybozu::GetEnv(key), val, "get", d); else { std::string w; try { cybozu::GetEnv(key); } catch (cybozu::Exception& e) { w = e.what(); } VF_CHECK(w.find(key) != std::string::npos, "missing-names-key", d + w); count("missing"); } VF_CHECK(cybozu::GetEnv(key + "x", "dflt") == "dflt", "longer-key", d); unsetenv(key.c_str()); count("env"); distinct(hashStr(key + val)); evals();
}
// ---- JSON values: deep copies, exact contents; model is an independent tree ----
struct Tree { int type = 0; std::string s; double n = 0; bool b = false; std::map<std::string, Tree> o; std::vector<Tree> a; };
typedef cybozu::Json J;
static Tree make(Rng& g, int depth) { Tree t; t.type = g.below(depth > 0 ? 6 : 4); switch (t.type) { case 1: t.s = text(g); if (g.chance(1, 6)) t.s += std::string("\0z", 2); break; case 2: t.n = g.chance(1, 8) ? -0.0 : (double)(int64_t)g.next() / 1000; break; case 3: t.b = g.chance(1, 2); break; case 4: for (int i = (int)g.upto(5); i > 0; i--) t.o[text(g)] = make(g, depth - 1); break; case 5: for (int i = (int)g.upto(5); i > 0; i--) t.a.push_back(make(g, depth - 1)); break; } return t; }
static J::Value build(const Tree& t) { switch (t.type) { case 1: return t.s.find('\0') == std::string::npos && t.s.size() % 2 ? J::Value(t.s.c_str()) : J::Value(t.s); case 2: return J::Value(t.n); case 3: return J::Value(t.b); case 4: { J::Object o; for (auto& x : t.o) o[x.first] = build(x.second); return J::Value(o); } case 5: { J::Array a; for (auto& x : t.a) a.push_back(build(x)); return J::Value(a); } default: return J::Value(); } }
static bool same(const J::Value& v, const Tree& t) { if (v.isNull() != (t.type == 0) || v.isString() != (t.type == 1) || v.isNumber() != (t.type == 2) || v.isBool() != (t.type == 3) || v.isObject() != (t.type == 4) || v.isArray() != (t.type == 5)) return false; switch (t.type) { case 1: return v.getString() == t.s; case 2: return memcmp(&t.n, &v.num_, 8) == 0 && v.getNumber() == t.n; case 3: return v.getBool() == t.b; case 4: { const J::Object& o = v.getObject(); if (o.size() != t.o.size()) return false; auto j = t.o.begin(); for (J::Object::const_iterator i = o.begin(); i != o.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false; return true; } case 5: { const J::Array& a = v.getArray(); if (a.size() != t.a.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], t.a[i])) return false; return true; } } return true; }
static size_t nodes(const Tree& t) { size_t n = 1; for (auto& x : t.o) n += nodes(x.second); for (auto& x : t.a) n += nodes(x); return n; }
VF_PART(json, 20000, 80000)
{
	const int N = 4; Tree t[N]; J::Value v[N]; std::string d; for (int i = 0; i < N; i++) { t[i] = make(rng, 3); v[i] = build(t[i]); } for (int k = 3 + rng.below(20); k > 0; k--) { int a = rng.below(N), b = rng.below(N), op = rng.below(6); d += fmt(" %d:%d,%d", op, a, b); note(d); switch (op) { case 0: v[a] = v[b]; if (a != b) t[a] = t[b]; break; case 1: v[a].swap(v[b]); std::swap(t[a], t[b]); break; case 2: { J::Value c(v[a]); VF_CHECK(same(c, t[a]), "copy", d); v[b] = c; if (a != b) t[b] = t[a]; break; } case 3: t[a] = make(rng, 2); v[a] = build(t[a]); break; case 4: if (t[a].type == 5 && !t[a].a.empty()) { size_t i = rng.below(t[a].a.size()); v[a] = v[a].getArray()[i]; Tree c = t[a].a[i]; t[a] = c; count("from-inside"); } else if (t[a].type == 4 && !t[a].o.empty()) { auto it = t[a].o.begin(); v[a] = v[a].getObject().find(it->first)->second; Tree c = it->second; t[a] = c; count("from-inside"); } break;
		default: if (t[a].type == 5 && nodes(t[b]) < 200 && nodes(t[a]) < 500) { v[a].arr_->push_back(v[b]); Tree c = t[b]; t[a].a.push_back(c); } } for (int i = 0; i < N; i++) VF_CHECK(same(v[i], t[i]), "tree", d + fmt(" value %d", i)); }
	count("trees"); size_t n = 0; for (auto& x : t) n += nodes(x); count("nodes", n); distinct(hashStr(d) + n); evals();
}
static __attribute__((noinline)) int deep(int n, std::string& out, size_t& depth) { volatile int k = n; if (k <= 0) { cybozu::StackTrace st; out = st.toString(); depth = st.empty() ? 0 : 1; std::ostringstream os; os << st; if (os.str() != out) depth = 0; st.clear(); if (!st.empty() || st.toString() != "") depth = 0; return 0; } int r = deep(k - 1, out, depth) + 1; asm volatile("" : "+r"(r)); return r; }
VF_PART(stack, 60, 800)
{
	int n = rng.below(60); std::string s; size_t ok = 0; deep(n, s, ok); VF_CHECK(ok && !s.empty(), "stack-empty", fmt("%d", n)); size_t lines = 1 + std::count(s.begin(), s.end(), '\n'); VF_CHECK(lines <= 32 && (int)lines >= std::min(n, 25), "stack-depth", fmt("%d frames for %d calls", (int)lines, n)); count("traces"); distinct(n);
	static const char *const T[][2] = { { "_Z3fooi", "foo(int)" }, { "_ZN3abc3defEv", "abc::def()" }, { "_ZNSt6vectorIiSaIiEE9push_backERKi", "std::vector<int, std::allocator<int> >::push_back(int const&)" }, { "_ZN1AC1Ev", "A::A()" } }; for (auto& x : T) { std::string o; bool b = cybozu::Demangle(o, x[0]); VF_CHECK(b && o == x[1], "demangle", o); std::string same = x[0]; b = cybozu::Demangle(same, same); VF_CHECK(b && same == x[1], "demangle-in-place", same); } std::string w = text(rng, false), o; if (w.compare(0, 2, "_Z") != 0 && w.size() > 1) { bool b = cybozu::Demangle(o, "?" + w); VF_CHECK(!b && o == "?" + w, "demangle-other", w + " -> " + o); } evals();
}
VF_LONG(longjson, json, 200, 4000, 4000)
