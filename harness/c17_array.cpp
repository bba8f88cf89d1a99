// C17: AlignedArray / ScopedArray / AlignedMalloc: lock-step model, alignment, failed allocations leave the array usable.
#include <stdint.h>
#include <stdlib.h>
#include <cstdlib>
#include <dlfcn.h>
#include <deque>
#include "common.hpp"
static int g_failAt = -1; static size_t g_allocs = 0;
static int my_memalign(void **p, size_t a, size_t n) { g_allocs++; if (g_failAt >= 0 && g_failAt-- == 0) return ENOMEM; return posix_memalign(p, a, n); }
namespace std { using ::my_memalign; }
#define posix_memalign my_memalign
#include <cybozu/array.hpp>
#undef posix_memalign
using namespace vf;
template<class T, size_t N, bool C> struct Hist {
	typedef cybozu::AlignedArray<T, N, C> A; struct E { T v; bool known; };
	struct S { A a; std::vector<E> m; size_t cap = 0; explicit S(size_t n, bool dc) : a(n, dc), m(n, E{ 0, dc }) {} S(const S&) = default; S(S&&) = default; };
	static void same(const S& s, const std::string& d)
	{
		const A& a = s.a; VF_EQ(a.size(), s.m.size(), "size", d); VF_EQ(a.empty(), s.m.empty(), "empty", d); VF_CHECK(a.end() - a.begin() == (ptrdiff_t)s.m.size() && a.data() == a.begin() && a.cbegin() == a.begin() && a.cend() == a.end(), "iter", d); if (!s.m.empty()) VF_CHECK((uintptr_t)a.data() % N == 0, "align", d);
		for (size_t i = 0; i < s.m.size(); i++) if (s.m[i].known) VF_CHECK(a[i] == s.m[i].v, "element", d + fmt(" index %zu of %zu got %llx want %llx", i, s.m.size(), (unsigned long long)a[i], (unsigned long long)s.m[i].v));
	}
	static void run(Rng& g)
	{
		std::deque<S> v; for (int i = 0; i < 3; i++) { size_t n = g.upto(20); bool dc = g.chance(1, 2); if (g.chance(1, 3)) { dc = C; v.emplace_back(n, dc); } else v.emplace_back(n, dc); } std::string h; int nop = 1 + g.below(30);
		for (int k = 0; k < nop; k++) {
			S& s = v[g.below(3)]; S& t = v[g.below(3)]; int op = g.below(12); size_t n = g.chance(1, 3) ? s.m.size() + g.below(3) : g.upto(60); if (g.chance(1, 6) && n) n = s.m.size() / 2; bool dc = g.chance(1, 2); h += fmt(" %d(%zu,%d,%d)", op, n, dc, &s == &t); const std::string d = fmt("T=%zu N=%zu C=%d:", sizeof(T), N, C) + h; note(d); count("op");
			// injected allocation failure
			bool inj = g.chance(1, 6); if (inj) g_failAt = 0; bool bad = false;
			try {
				switch (op) {
				case 0: case 1: { s.a.resize(n, dc); s.m.resize(n, E{ 0, dc }); break; }
				case 2: s.a.resize(n); s.m.resize(n, E{ 0, C }); break;
				case 3: s.a.clear(); s.m.clear(); break;
				case 4: s.a = t.a; s.m = std::vector<E>(t.m); break;
				case 5: if (&s != &t) { s.a = std::move(t.a); s.m = t.m; t.m.clear(); } break;
				case 6: s.a.swap(t.a); if (&s != &t) s.m.swap(t.m); break;
				case 7: { A c(s.a); S x(0, false); x.a = std::move(c); x.m = s.m; same(x, d); if (!x.m.empty()) { x.a[0] = 1; VF_CHECK(!s.m[0].known || s.a[0] == s.m[0].v, "copy-shares", d); } break; }
				case 8: { A c(std::move(s.a)); VF_CHECK(s.a.empty() && s.a.size() == 0, "moved-from", d); s.a.resize(1, true); VF_CHECK(s.a[0] == 0, "moved-reuse", d); s.a = std::move(c); break; }
				case 9: { std::vector<E> m2; m2.assign(n, E{ 0, dc }); A c(n, dc); s.a.swap(c); s.m = m2; break; }
				default: for (size_t i = 0; i < s.m.size(); i++) if (!s.m[i].known || g.chance(1, 2)) { T x = (T)g.next(); s.a[i] = x; s.m[i] = E{ x, true }; } break;
				}
			} catch (std::bad_alloc&) { bad = true; count("alloc-refused"); VF_CHECK(inj, "unexpected-bad_alloc", d); if (op == 8) { s.m.clear(); } }
			g_failAt = -1; (void)bad; for (auto& x : v) same(x, d); evals();
			uint64_t z = op * 131 + s.m.size(); for (auto& e : s.m) z = mix(z ^ (e.known ? (uint64_t)e.v : 7)); distinct(z);
		}
	}
};
VF_PART(hist, 6000, 400000)
{
	switch (rng.below(6)) { case 0: Hist<uint8_t, 16, true>::run(rng); break; case 1: Hist<uint32_t, 16, true>::run(rng); break; case 2: Hist<uint64_t, 64, true>::run(rng); break; case 3: Hist<uint16_t, 4096, true>::run(rng); break; case 4: Hist<uint32_t, 32, false>::run(rng); break; default: Hist<uint64_t, 16, false>::run(rng); }
}
static int live; struct Obj { int v; Obj() : v(77) { live++; } ~Obj() { live--; } };
VF_PART(scoped, 3000, 100000)
{
	size_t n = rng.below(50); std::string d = fmt("n=%zu", n); { cybozu::ScopedArray<Obj> a(n); VF_CHECK(live == (int)n && a.size() == n && a.empty() == (n == 0) && a.end() - a.begin() == (ptrdiff_t)n && a.data() == a.begin(), "scoped", d); for (size_t i = 0; i < n; i++) { VF_EQ(a[i].v, 77, "scoped-init", d); a[i].v = (int)i; } const cybozu::ScopedArray<Obj>& c = a; for (size_t i = 0; i < n; i++) VF_CHECK(c[i].v == (int)i && c.begin()[i].v == (int)i && &c[i] == c.data() + i && c.end() == a.end(), "scoped-el", d); }
	VF_EQ(live, 0, "scoped-destroy", d); count("scoped"); distinct(n * 7919 + 3); evals();
	size_t al = sizeof(void *) << rng.below(10), sz = 1 + rng.below(3000); char *p = (char *)cybozu::AlignedMalloc(sz, al); VF_CHECK(p && (uintptr_t)p % al == 0, "aligned-malloc", fmt("size %zu align %zu", sz, al)); memset(p, 1, sz); cybozu::AlignedFree(p); cybozu::AlignedFree(0); count("malloc"); VF_CHECK(cybozu::AlignedMalloc((size_t(1) << 62) + sz, al) == 0, "aligned-malloc-fail", d);
}
VF_PART(huge, 200, 2000)
{
	// sizes that cannot be provided are refused and leave the array as it was
	cybozu::AlignedArray<uint64_t> a(5); for (int i = 0; i < 5; i++) a[i] = i + 9; static const size_t tab[] = { size_t(1) << 60, (size_t(1) << 61) - 1, size_t(1) << 58, size_t(1) << 50 }; size_t n = tab[idx % 4] + rng.below(7); VF_CHECK(throws<std::bad_alloc>([&] { a.resize(n, false); }), "huge", fmt("n=%zu", n)); VF_CHECK(a.size() == 5 && a[0] == 9 && a[4] == 13, "huge-kept", fmt("n=%zu", n)); count("huge"); evals(); distinct(n);
}
VF_LONG(longhist, hist, 120, 6000, 400000)
