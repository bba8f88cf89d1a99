// C15: full-text index, suffix sorting and frequency tables vs brute force.
#include <string.h>
#include <cybozu/string.hpp>
#include <cybozu/fmindex.hpp>
#include "common.hpp"
using namespace vf;
static bool g_long; static int g_skip = 1;
template<class T> static std::vector<T> text(Rng& g, size_t maxN, bool wide)
{
	size_t n; if (g_long) n = maxN / 2 + g.below(maxN); else switch (g.below(5)) { case 0: n = g.below(6); break; case 1: n = g.below(40); break; case 2: n = 64 * g.below(8) + g.range(0, 2); break; default: n = g.below(maxN); } uint64_t lim = sizeof(T) == 1 ? 255 : wide ? 3000 : 60000; std::vector<uint64_t> al(1 + g.below(g.chance(1, 3) ? 2 : g.chance(1, 2) ? 6 : sizeof(T) == 1 ? 255 : 400)); for (auto& a : al) a = 1 + g.below(lim);
	std::vector<T> v(n); int k = g.below(4); std::vector<T> w(1 + g.below(20)); for (auto& x : w) x = (T)g.pick(al); for (size_t i = 0; i < n; i++) v[i] = k == 0 ? (T)g.pick(al) : k == 1 ? w[i % w.size()] : k == 2 ? (T)al[0] : (g.chance(1, 9) ? (T)g.pick(al) : w[i % w.size()]); return v;
}
template<class T, class Key> static std::string show(const Key& k) { std::string s; for (auto c : k) { s += fmt("%llx ", (unsigned long long)(T)c); if (s.size() > 200) break; } return s; }
template<class FM, class T, class Key> static void verify(const FM& f, const std::vector<T>& v, const std::string& d, Rng& g)
{
	const size_t n = v.size();
	for (int q = 0; q < 25; q++) {
		Key key; size_t len = 1 + (g_long && g.chance(1, 2) ? g.below(5000) : g.chance(1, 2) ? g.below(4) : g.below(30)); if (n && g.chance(4, 5)) { size_t p = g.below(n); len = std::min(len, n - p); for (size_t i = 0; i < len; i++) key.push_back((typename Key::value_type)v[p + i]); if (g.chance(1, 5)) key[g.below(key.size())] = (typename Key::value_type)(1 + g.below(250)); } else for (size_t i = 0; i < len; i++) key.push_back((typename Key::value_type)(n && g.chance(1, 2) ? v[g.below(n)] : (T)(1 + g.below(250))));
		std::set<size_t> want; if (g_long) { std::vector<T> kv; for (auto c : key) kv.push_back((T)c); std::vector<size_t> fail(kv.size() + 1); for (size_t i = 1, j = 0; i < kv.size(); i++) { while (j && !(kv[i] == kv[j])) j = fail[j]; if (kv[i] == kv[j]) j++; fail[i + 1] = j; } for (size_t i = 0, j = 0; i < n; i++) { while (j && (j == kv.size() || !(v[i] == kv[j]))) j = fail[j]; if (v[i] == kv[j]) j++; if (j == kv.size()) want.insert(want.end(), i + 1 - j); } }
		else for (size_t p = 0; p + key.size() <= n; p++) { bool eq = true; for (size_t i = 0; i < key.size() && eq; i++) eq = v[p + i] == (T)key[i]; if (eq) want.insert(p); }
		size_t b = 12345, e = 12345; bool r = f.getRange(&b, &e, key); std::string dk = d + " key " + show<T>(key); VF_EQ(r, !want.empty(), "found", dk); if (!r) { VF_CHECK(b == 12345 && e == 12345, "untouched", dk); count("miss"); continue; }
		VF_CHECK(e - b == want.size(), "count", dk + fmt(" got %zu want %zu", e - b, want.size())); std::set<size_t> got; if (want.size() * g_skip > 40000) { for (int j = 0; j < 60; j++) { size_t p = f.convertPosition(b + g.below(e - b)); VF_CHECK(want.count(p), "position", dk); got.insert(p); } } else { for (size_t i = b; i < e; i++) got.insert(f.convertPosition(i)); VF_CHECK(got == want, "positions", dk); } count("hit"); count("positions", got.size());
		size_t i = b + g.below(e - b), p = f.convertPosition(i), L = g.below(g_long ? 9000 : g.chance(1, 20) ? 700 : 20); Key prev; f.getPrevString(prev, i, L); size_t k = std::min(L, p); VF_EQ(prev.size(), k, "prev-size", dk); for (size_t j = 0; j < k; j++) VF_CHECK((T)prev[j] == v[p - k + j], "prev", dk);
	}
	Key none; size_t b, e; VF_CHECK(!f.getRange(&b, &e, none), "empty-key", d);
}
template<class T, bool Raw, class Key> static void run(Rng& g, const char *nm, size_t maxN)
{
	typedef cybozu::FMindexT<T, Raw> FM; FM f; int rounds = 1 + g.below(3);
	if (g_long) rounds = 1;
	for (int k = 0; k < rounds; k++) {
		std::vector<T> v = text<T>(g, maxN, true); int skip = 1 + g.below(g_long || g.chance(1, 8) ? 700 : 12); std::string d = fmt("%s len=%zu skip=%d round %d", nm, v.size(), skip, k); note(d); g_skip = skip; f.init(v.begin(), v.end(), skip); verify<FM, T, Key>(f, v, d, g);
		if (g.chance(1, 3)) { std::stringstream ss; f.save(ss); FM x; if (g.chance(1, 2)) { auto o = text<T>(g, 50, true); x.init(o.begin(), o.end()); } x.load(ss); verify<FM, T, Key>(x, v, d + " loaded", g); count("loaded"); std::unique_ptr<FM> p(new FM(x)); FM y = *p; FM z; z = *p; p.reset(); verify<FM, T, Key>(y, v, d + " copied", g); verify<FM, T, Key>(z, v, d + " assigned", g); }
		uint64_t h = v.size(); for (auto x : v) h = mix(h ^ x); distinct(h); if (wantSample()) sample(d);
	}
	VF_CHECK(throws<cybozu::Exception>([&] { std::vector<T> v(3, 1); f.init(v.begin(), v.end(), 0); }), "skip0", nm);
}
VF_PART(fm8, 500, 20000) { run<uint8_t, false, std::string>(rng, "u8", 800); }
VF_PART(fmraw, 300, 12000) { run<uint8_t, true, std::vector<uint8_t>>(rng, "raw u8", 800); }
VF_PART(fm16, 240, 12000) { if (idx % 2) run<cybozu::Char, false, cybozu::String>(rng, "Char", 500); else run<uint16_t, false, std::vector<uint16_t>>(rng, "u16", 500); }
VF_PART(fmraw16, 16, 100) { run<uint16_t, true, std::vector<uint16_t>>(rng, "raw u16", 300); }
VF_PART(longtext, 10, 120) { g_long = true; switch (idx % 3) { case 0: run<uint8_t, false, std::string>(rng, "long u8", 400000); break; case 1: run<uint8_t, true, std::vector<uint8_t>>(rng, "long raw", 200000); break; default: run<cybozu::Char, false, cybozu::String>(rng, "long Char", 150000); break; } g_long = false; count("long"); }
VF_PART(alphabet, 24, 200)
{
	// full alphabets: 255 symbols fit, 256 do not
	std::vector<uint8_t> v; int n = 253 + idx % 4; for (int i = 0; i < n; i++) v.push_back((uint8_t)i); for (int i = 0; i < 200; i++) v.push_back((uint8_t)rng.below(n)); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]); cybozu::FMindex f; bool th = false; try { f.init(v.begin(), v.end()); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, n == 256, "alphabet", fmt("%d", n)); if (!th) verify<cybozu::FMindex, uint8_t, std::vector<uint8_t>>(f, v, fmt("alphabet %d", n), rng); count("alphabet");
	cybozu::FMindexT<uint8_t, true> r; VF_CHECK(throws<cybozu::Exception>([&] { std::vector<uint8_t> z(5, 7); z[rng.below(5)] = 0; r.init(z.begin(), z.end()); }), "raw-zero", "");
}
VF_PART(sais, 4000, 150000)
{
	std::vector<int> s; { auto v = text<uint16_t>(rng, 400, true); s.assign(v.begin(), v.end()); } std::string d = fmt("len=%zu", s.size()); note(d); if (s.empty()) return; std::vector<int> sa(s.size()); int rc; int n = (int)s.size();
	bool bytes = rng.chance(1, 2); std::vector<uint8_t> b; if (bytes) { for (auto& x : s) { x &= 255; b.push_back((uint8_t)x); } rc = saisxx(b.data(), sa.data(), n, 256); } else rc = saisxx(s.data(), sa.data(), n, 60001); VF_EQ(rc, 0, "sais-rc", d);
	std::vector<int> w(n); for (int i = 0; i < n; i++) w[i] = i; std::sort(w.begin(), w.end(), [&](int a, int c) { return std::lexicographical_compare(s.begin() + a, s.end(), s.begin() + c, s.end()); }); VF_CHECK(sa == w, "suffix-array", d); count("sais");
	if (bytes) { std::vector<uint8_t> u(n); std::vector<int> a(n); int pi = saisxx_bwt(b.data(), u.data(), a.data(), n, 256); std::vector<uint8_t> bw; int want = -1; bw.push_back(b[n - 1]); for (int i = 0; i < n; i++) { if (w[i] == 0) want = i + 1; else bw.push_back(b[w[i] - 1]); } VF_CHECK(pi == want && u == bw, "bwt", d + fmt(" pidx %d want %d", pi, want)); count("bwt"); }
	uint64_t h = n; for (auto x : s) h = mix(h ^ x); distinct(h);
}
template<class E, class F> static void freq(Rng& g, const std::vector<E>& v, const std::string& d)
{
	F f; std::map<E, size_t> m; for (auto& e : v) m[e]++; if (g.chance(1, 2)) f.init(v.begin(), v.end()); else { for (auto& e : v) f.append(e); f.ready(); }
	auto chk = [&](const F& x, const std::string& dd) { VF_EQ(x.size(), m.size(), "freq-size", dd); size_t prev = ~0ull; std::set<E> seen; for (size_t i = 0; i < x.size(); i++) { E e = x.getElement(i); VF_CHECK(m.count(e) && seen.insert(e).second, "freq-element", dd + fmt(" idx %zu", i)); VF_CHECK(x.getIndex(e) == i, "freq-index", dd); size_t c = x.getFrequency(e); VF_EQ(c, m[e], "freq-count", dd); VF_CHECK(c <= prev, "freq-order", dd); prev = c; } };
	chk(f, d); E other = E(); for (int i = 0; i < 20; i++) { other = E(g.next() & 127); if (!m.count(other)) VF_CHECK(f.getFrequency(other) == 0, "freq-absent", d); } std::stringstream ss; f.save(ss); F h; h.load(ss); chk(h, d + " loaded"); { std::unique_ptr<F> p(new F(f)); F c(*p), c2; c2 = *p; p.reset(); chk(c, d + " copy"); chk(c2, d + " assign"); } h.clear(); VF_EQ(h.size(), 0u, "freq-clear", d); h.init(v.begin(), v.end()); chk(h, d + " reinit"); count("freq");
}
template<class I> static void longfreq(Rng& g)
{
	// tables of more than 16 bits of elements and counts
	size_t kinds = g.chance(1, 2) ? 1 + g.below(2) : 70000 + g.below(60000), n = kinds + 100000 + g.below(100000); std::vector<uint32_t> v(n); std::unordered_map<uint32_t, size_t> m; for (size_t i = 0; i < n; i++) { v[i] = (uint32_t)((i < kinds ? i : g.below(kinds)) * 7919); m[v[i]]++; } std::string d = fmt("long kinds=%zu n=%zu", kinds, n); note(d); cybozu::Frequency<uint32_t, I> f; f.init(v.begin(), v.end());
	auto chk = [&](const cybozu::Frequency<uint32_t, I>& x) { VF_EQ((size_t)x.size(), m.size(), "lfreq-size", d); size_t prev = ~0ull; for (size_t i = 0; i < x.size(); i++) { uint32_t e = x.getElement(i); auto p = m.find(e); VF_CHECK(p != m.end() && x.getFrequency(e) == p->second && x.getIndex(e) == i && p->second <= prev, "lfreq", d + fmt(" idx %zu", i)); prev = p->second; } };
	chk(f); std::stringstream ss; f.save(ss); cybozu::Frequency<uint32_t, I> h; h.load(ss); chk(h); count("long-freq");
}
VF_PART(longfrequency, 8, 200) { if (idx % 2) longfreq<size_t>(rng); else longfreq<uint32_t>(rng); }
VF_PART(frequency, 2000, 60000)
{
	size_t n = rng.len(400); int k = 1 + rng.below(100); std::string d = fmt("n=%zu k=%d", n, k); note(d); switch (idx % 4) {
	case 0: { std::vector<uint8_t> v(n); for (auto& x : v) x = (uint8_t)(rng.below(k) * 37); freq<uint8_t, cybozu::Frequency<uint8_t>>(rng, v, d); break; } case 1: { std::vector<char> v(n); for (auto& x : v) x = (char)(rng.below(k) * 37); freq<char, cybozu::Frequency<char, uint32_t>>(rng, v, d); break; }
	case 2: { std::vector<uint16_t> v(n); for (auto& x : v) x = (uint16_t)(rng.below(k) * 3701); freq<uint16_t, cybozu::Frequency<uint16_t, uint32_t>>(rng, v, d); break; } default: { std::vector<int> v(n); for (auto& x : v) x = (int)(rng.below(k) * 370100) - 50000; freq<int, cybozu::Frequency<int, size_t>>(rng, v, d); break; } }
	distinct(rng.s);
}
VF_PART(strfreq, 300, 5000) { size_t n = rng.len(200); cybozu::Frequency<std::string> f; std::map<std::string, size_t> m; for (size_t i = 0; i < n; i++) { std::string s = rng.from("ab", rng.below(4)); m[s]++; f.append(s); } f.ready(); VF_EQ(f.size(), m.size(), "sfreq-size", ""); size_t prev = ~0ull; for (size_t i = 0; i < f.size(); i++) { const std::string& s = f.getElement(i); VF_CHECK(m[s] == f.getFrequency(s) && f.getIndex(s) == i && m[s] <= prev, "sfreq", s); prev = m[s]; } VF_CHECK(throws<cybozu::Exception>([&] { f.getElement(m.size()); }) && throws<cybozu::Exception>([&] { f.getIndex("zz"); }), "sfreq-range", ""); }
