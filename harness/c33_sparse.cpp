// C33: nlp/sparse.hpp and nlp/top_score.hpp against maps and a stable sort.
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <map>
#include <sstream>
#define VF_BOUNDED_NEW
#include "common.hpp"
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/nlp/top_score.hpp>
#include <cybozu/stream.hpp>
using namespace vf;
namespace nlp = cybozu::nlp;
typedef nlp::option::PositionTbl P; typedef nlp::option::CompressedPositionTbl C;
static uint64_t gap(Rng& g, int style) { switch (style == 4 ? (int)g.below(4) : style) { case 0: return 1 + g.below(3); case 1: return 1 + g.below(200); case 2: { static const uint64_t e[] = { 63, 64, 65, 16383, 16384, 16385, 4194303, 4194304, 4194305 }; return e[g.below(9)]; } default: return 1 + (g.next() & ((1u << g.below(29)) - 1)); } }
template<class T> static T value(Rng& g) { return (T)g.range(-20, 20); } template<> bool value<bool>(Rng& g) { return g.chance(1, 2); } template<> unsigned char value<unsigned char>(Rng& g) { return (unsigned char)g.next(); }
template<class V, class M> static void same(const V& v, const M& m, const std::string& d)
{
	VF_EQ(v.size(), m.size(), "size", d); VF_EQ(v.empty(), m.empty(), "empty", d); auto j = m.begin(); size_t n = 0; double norm = 0; for (typename V::const_iterator i = v.begin(), ie = v.end(); i != ie; ++i, ++j, ++n) { if (j == m.end()) fail("iteration-too-long", d); VF_EQ(i->pos(), (size_t)j->first, "position", d + fmt(" entry %zu", n)); VF_EQ((double)i->val(), (double)j->second, "value", d + fmt(" entry %zu", n)); VF_CHECK((*i).pos() == i.pos() && (*i).val() == i.val(), "deref", d); norm += (double)j->second * (double)j->second; } VF_CHECK(j == m.end(), "iteration-too-short", d); VF_EQ(v.norm(), norm, "norm", d); count("entries", n);
}
template<class T, class PT> struct Pair { nlp::SparseVector<T, PT> v; std::map<uint64_t, T> m; };
template<class T, class PT> static void build(Rng& g, Pair<T, PT>& p, int n, int style) { uint64_t pos = g.chance(1, 3) ? 0 : gap(g, style) - 1; for (int i = 0; i < n; i++) { T x = value<T>(g); if (pos > 0xffffffffull) break; p.v.push_back(pos, x); p.m[pos] = x; pos += gap(g, style); } }
template<class T, class PT> static void history(Rng& rng, const char *tn, bool compressed)
{
	// random history of pushes (good and bad order), clears, copies, swaps and looking in between
	Pair<T, PT> a, b; std::string d = tn; int style = rng.below(5); for (int k = 3 + rng.below(30); k > 0; k--) { int op = rng.below(12); d += fmt(" %d", op); note(d); uint64_t last = a.m.empty() ? 0 : a.m.rbegin()->first; switch (op) {
		case 0: case 1: case 2: case 3: { int n = 1 + (int)rng.upto(10); for (int i = 0; i < n; i++) { uint64_t pos = a.m.empty() ? rng.below(100) * rng.below(2) : a.m.rbegin()->first + gap(rng, style); if (pos > 0xffffffffull) break; T x = value<T>(rng); a.v.push_back(pos, x); a.m[pos] = x; } break; }
		case 4: if (!a.m.empty()) { uint64_t bad = rng.chance(1, 2) ? last : rng.below(last + 1); VF_CHECK(throws<cybozu::Exception>([&] { a.v.push_back(bad, value<T>(rng)); }), "order", d + fmt(" %llu", (unsigned long long)bad)); count("refused"); } break;
		case 5: { uint64_t bad = compressed ? last + (1ull << 30) + rng.below(1000) * rng.below(2) : 0x100000000ull + rng.below(1000) * rng.below(2); VF_CHECK(throws<cybozu::Exception>([&] { a.v.push_back(bad, value<T>(rng)); }), "too-large", d); count("refused"); break; }
		case 6: if (rng.chance(1, 3)) { a.v.clear(); a.m.clear(); } break; case 7: a.v.swap(b.v); std::swap(a.m, b.m); break; case 8: b.v = a.v; b.m = a.m; break; case 9: { nlp::SparseVector<T, PT> c(a.v); VF_CHECK(c == a.v && !(c != a.v), "copy", d); same(c, a.m, d); if (!a.m.empty()) { size_t k = rng.below(a.m.size()), i = 0; nlp::SparseVector<T, PT> e; for (auto& x : a.m) { e.push_back(x.first, i == k ? (T)(x.second ? 0 : 1) : x.second); i++; } VF_CHECK(!(e == a.v) && e != a.v && !(a.v == e), "equality-value", d + fmt(" entry %zu", k)); } break; }
		case 10: { std::string s; { cybozu::StringOutputStream os(s); a.v.save(os); } nlp::SparseVector<T, PT> c; if (rng.chance(1, 2)) c.push_back(7, value<T>(rng)); cybozu::StringInputStream is(s); c.load(is); same(c, a.m, d + " reload"); VF_CHECK(c == a.v, "reload-equal", d); count("reloads"); if (rng.chance(1, 2) && !s.empty()) { std::string t = s; if (rng.chance(1, 2)) t.resize(rng.below(t.size())); else t[rng.below(t.size())] ^= 1 << rng.below(8); try { cybozu::StringInputStream is2(t); nlp::SparseVector<T, PT> e; e.load(is2); size_t n = 0; uint64_t prev = 0; for (auto i = e.begin(), ie = e.end(); i != ie; ++i) { VF_CHECK(n == 0 || i->pos() > prev, "corrupt-order", d); prev = i->pos(); n++; } VF_EQ(n, e.size(), "corrupt-size", d); } catch (std::exception&) {} count("corrupt"); } break; }
		default: { same(a.v, a.m, d); bool eq = a.m == b.m; VF_EQ(a.v == b.v, eq, "equality", d); VF_EQ(a.v != b.v, !eq, "inequality", d); } } }
	same(a.v, a.m, d); same(b.v, b.m, d); { nlp::SparseVector<T, PT> s; s.set(a.m); same(s, a.m, d + " set"); } distinct(hashStr(d) + a.m.size()); evals();
}
VF_PART(vec, 30000, 200000) { switch (rng.below(5)) { case 0: history<int, P>(rng, "int/plain", false); break; case 1: history<double, C>(rng, "double/compressed", true); break; case 2: history<bool, P>(rng, "bool/plain", false); break; case 3: history<unsigned char, C>(rng, "uchar/compressed", true); break; default: history<int, C>(rng, "int/compressed", true); } }
template<class T1, class P1, class T2, class P2> static void pairOps(Rng& rng, const char *tn)
{
	Pair<T1, P1> a; Pair<T2, P2> b; int style = rng.below(5); int n1 = rng.chance(1, 8) ? 0 : (int)rng.upto(rng.chance(1, 5) ? 300 : 12), n2 = rng.chance(1, 8) ? 0 : (int)rng.upto(rng.chance(1, 5) ? 300 : 12); build(rng, a, n1, style); if (rng.chance(1, 2)) build(rng, b, n2, style); else { std::map<uint64_t, T2> m; for (auto& x : a.m) if (rng.chance(1, 2)) m[x.first] = value<T2>(rng); for (int i = 0; i < n2; i++) { uint64_t k = a.m.empty() ? rng.below(50) : std::min<uint64_t>(0x3fffffff, rng.below(a.m.rbegin()->first + 20)); m[k] = value<T2>(rng); } uint64_t prev = 0; for (auto& x : m) { if (x.first - prev >= (1u << 30)) break; b.v.push_back(x.first, x.second); b.m[x.first] = x.second; prev = x.first; } }
	std::string d = fmt("%s %zu with %zu entries style %d", tn, a.m.size(), b.m.size(), style); note(d); typedef nlp::SparseVector<T1, P1> V1; typedef nlp::SparseVector<T2, P2> V2;
	{ nlp::Intersection<V1, V2> in(a.v, b.v); auto x = a.m.begin(); size_t n = 0; for (typename nlp::Intersection<V1, V2>::const_iterator i = in.begin(), ie = in.end(); i != ie; ++i) { while (x != a.m.end() && !b.m.count(x->first)) ++x; if (x == a.m.end()) fail("intersection-extra", d + fmt(" pos %zu", i->pos())); VF_EQ(i->pos(), (size_t)x->first, "intersection-pos", d); VF_EQ((double)i->val1(), (double)x->second, "intersection-val1", d); VF_EQ((double)i->val2(), (double)b.m[x->first], "intersection-val2", d); ++x; n++; } while (x != a.m.end() && !b.m.count(x->first)) ++x; VF_CHECK(x == a.m.end(), "intersection-missing", d); count("common", n); }
	{ typedef nlp::Union<V1, V2> U; typedef typename U::const_iterator I; U un(a.v, b.v); std::map<uint64_t, int> keys; for (auto& x : a.m) keys[x.first] |= 1; for (auto& x : b.m) keys[x.first] |= 2; auto k = keys.begin(); for (I i = un.begin(), ie = un.end(); i != ie; ++i, ++k) { if (k == keys.end()) fail("union-extra", d); VF_EQ(i->pos(), (size_t)k->first, "union-pos", d); VF_EQ(i->hasVal1(), (k->second & 1) != 0, "union-has1", d); VF_EQ(i->hasVal2(), (k->second & 2) != 0, "union-has2", d); VF_EQ((double)i->val1(), k->second & 1 ? (double)a.m[k->first] : 0, "union-val1", d); VF_EQ((double)i->val2(), k->second & 2 ? (double)b.m[k->first] : 0, "union-val2", d);
			uint64_t n1 = 0, n2 = 0; auto q1 = a.m.lower_bound(k->first); auto q2 = b.m.lower_bound(k->first); bool h1 = q1 != a.m.end(), h2 = q2 != b.m.end(); if (h1) n1 = q1->first; if (h2) n2 = q2->first; auto want = !h1 ? I::Only2 : !h2 ? I::Only1 : n1 < n2 ? I::Small : n1 == n2 ? I::Equal : I::Large; VF_CHECK(i->getMode() == want, "union-mode", d + fmt(" %d want %d", i->getMode(), want)); } VF_CHECK(k == keys.end(), "union-missing", d); count("united", keys.size()); }
	{ double want = 0; for (auto& x : a.m) if (b.m.count(x.first)) want += (double)x.second * (double)b.m[x.first]; double got = 1; nlp::InnerProduct(&got, a.v, b.v); VF_EQ(got, want, "inner-product", d); long long gi; nlp::InnerProduct(&gi, b.v, a.v); VF_EQ((double)gi, want, "inner-product-swapped", d); double self = 5; nlp::InnerProduct(&self, a.v, a.v); VF_EQ(self, a.v.norm(), "inner-product-self", d); count("products"); } distinct(mix(a.m.size() * 1000 + b.m.size()) + style + rng.next() % 1000); evals(); if (wantSample()) sample(d);
}
VF_PART(pair, 30000, 200000) { switch (rng.below(4)) { case 0: pairOps<int, P, int, P>(rng, "plain/plain"); break; case 1: pairOps<int, C, double, P>(rng, "compressed/plain"); break; case 2: pairOps<double, C, int, C>(rng, "compressed/compressed"); break; default: pairOps<bool, P, int, C>(rng, "bool/compressed"); } }
VF_PART(fraction, 6000, 60000)
{
	// the norm and the inner product of fractional values keep the precision of double
	nlp::SparseVector<double, P> a; nlp::SparseVector<double, C> b; std::map<uint64_t, double> m; uint64_t pos = 0; int n = rng.below(30); long double nn = 0, ip = 0; double mag = 0; std::string d = fmt("%d entries", n); for (int i = 0; i < n; i++) { pos += 1 + rng.below(100); double x = (double)rng.range(-1000000, 1000000) / 777777, y = (double)rng.range(-1000000, 1000000) / 33333; bool ina = rng.chance(2, 3), inb = rng.chance(2, 3); if (ina) { a.push_back(pos, x); nn += (long double)x * x; } if (inb) b.push_back(pos, y); if (ina && inb) { ip += (long double)x * y; mag += fabs(x * y); } }
	VF_CHECK(fabsl(a.norm() - nn) <= 1e-12L * nn, "norm-precision", d + fmt(" %.17g", a.norm())); double g = -1; nlp::InnerProduct(&g, a, b); VF_CHECK(fabsl(g - ip) <= 1e-12L * mag, "product-precision", d + fmt(" %.17g", g)); nlp::InnerProduct(&g, b, a); VF_CHECK(fabsl(g - ip) <= 1e-12L * mag, "product-precision", d + fmt(" %.17g", g)); count("fractional"); evals(); distinct(rng.next());
}
VF_PART(top, 30000, 200000)
{
	// the table is the stable descending order of all scores, cut at the size; looking at it never disturbs later additions
	size_t max = rng.chance(1, 5) ? rng.below(3) : rng.upto(rng.chance(1, 10) ? 200 : 15); nlp::TopScore<int, double> t(max); std::vector<std::pair<double, int>> all; std::string d = fmt("size %zu:", max); int levels = 1 + rng.below(rng.chance(1, 2) ? 6 : 10000); int id = 0; int steps = 1 + rng.below(60);
	for (int k = 0; k < steps; k++) { int op = rng.below(20); if (op == 0) { max = rng.upto(20); t.setSize(max); all.clear(); d += fmt(" setSize%zu", max); } else if (op <= 2 || k + 1 == steps) { d += " look"; note(d); std::vector<std::pair<double, int>> s = all; std::stable_sort(s.begin(), s.end(), [](const std::pair<double, int>& x, const std::pair<double, int>& y) { return x.first > y.first; }); if (s.size() > max) s.resize(max); const nlp::TopScore<int, double>::Table& g = t.getTable(); VF_EQ(g.size(), s.size(), "table-size", d); for (size_t i = 0; i < s.size(); i++) { VF_EQ(g[i].score, s[i].first, "table-score", d + fmt(" rank %zu", i)); VF_EQ(g[i].idx, s[i].second, "table-index", d + fmt(" rank %zu", i)); } count("tables"); } else { int n = 1 + (int)rng.upto(8); for (int i = 0; i < n; i++) { double s = (double)rng.range(-levels, levels) / 3; t.add(s, id); all.push_back({ s, id }); id++; } d += fmt(" +%d", n); count("scores", n); } }
	distinct(hashStr(d) + levels); evals();
}
VF_LONG(longvec, vec, 300, 3000, 30000)
VF_LONG(longpair, pair, 300, 3000, 30000)
VF_LONG(longtop, top, 300, 3000, 9000)
