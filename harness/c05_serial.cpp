// C05: what is saved is what is loaded, over every stream kind; truncated or corrupt data never causes undefined behaviour.
#include <cybozu/serializer.hpp>
#include <cybozu/string.hpp>
#include <cybozu/unordered_map.hpp>
#include <list>
#include <deque>
#include <cmath>
#define VF_BOUNDED_NEW
#include "common.hpp"
using namespace vf;
typedef cybozu::String Str;

struct Pod { int32_t a; uint16_t b; uint8_t c; double d; bool operator==(const Pod& r) const { return a == r.a && b == r.b && c == r.c && memcmp(&d, &r.d, 8) == 0; } };
struct User { int i; std::string s; std::vector<double> v; std::map<int, std::string> m;
	template<class IS> void load(IS& is) { cybozu::load(i, is); cybozu::load(s, is); cybozu::load(v, is); cybozu::load(m, is); }
	template<class OS> void save(OS& os) const { cybozu::save(os, i); cybozu::save(os, s); cybozu::save(os, v); cybozu::save(os, m); } };
// value equality with bit-exact floats
template<class T> bool eq(const T& a, const T& b) { return a == b; }
static bool eq(const float& a, const float& b) { return memcmp(&a, &b, 4) == 0; }
static bool eq(const double& a, const double& b) { return memcmp(&a, &b, 8) == 0; }
static bool eq(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || memcmp(&a[0], &b[0], a.size() * 8) == 0); }
static bool eq(const User& a, const User& b) { return a.i == b.i && a.s == b.s && eq(a.v, b.v) && a.m == b.m; }
static bool eq(const std::map<Str, double>& a, const std::map<Str, double>& b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (!(i->first == j->first) || !eq(i->second, j->second)) return false; return true; }
static bool eq(const Str& a, const Str& b) { return a.get() == b.get(); }

// ---- generators ----
static std::string rstr(Rng& g) { return g.bytes(g.len(200)); }
static void gen(Rng& g, bool& x) { x = g.chance(1, 2); }
template<class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type gen(Rng& g, T& x) { x = (T)g.edgy64(); if (g.chance(1, 3)) x = (T)g.range(-300, 300); }
static void gen(Rng& g, float& x) { uint32_t u = (uint32_t)g.next(); if (g.chance(1, 4)) { static const uint32_t e[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 1, 0x7f7fffffu}; u = e[g.below(6)]; } if ((u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffffu)) u |= 0x400000u; memcpy(&x, &u, 4); }
static void gen(Rng& g, double& x) { uint64_t u = g.next(); if (g.chance(1, 4)) { static const uint64_t e[] = {0, 1ull << 63, 0x7ffull << 52, 0xfffull << 52, 1, (0x7ffull << 52) - 1}; u = e[g.below(6)]; } if (((u >> 52) & 0x7ff) == 0x7ff && (u << 12)) u |= 1ull << 51; memcpy(&x, &u, 8); }
static void gen(Rng& g, std::string& x) { x = rstr(g); }
static void gen(Rng& g, Str& x) { x.clear(); size_t n = g.len(60); for (size_t i = 0; i < n; i++) x.push_back((cybozu::Char)g.below(0x110000)); }
template<class T> void gen(Rng& g, std::vector<T>& v);
template<class K, class V> void gen(Rng& g, std::map<K, V>& v);
template<class A, class B> void gen(Rng& g, std::pair<A, B>& p) { gen(g, p.first); gen(g, p.second); }
template<class C> void genSeq(Rng& g, C& c, size_t mx) { c.clear(); size_t n = g.len(mx); for (size_t i = 0; i < n; i++) { typename C::value_type v; gen(g, v); c.push_back(v); } }
template<class T> void gen(Rng& g, std::list<T>& v);
template<class K, class V> void gen(Rng& g, std::map<K, V>& v);
template<class T> void gen(Rng& g, std::vector<T>& v) { genSeq(g, v, std::is_integral<T>::value ? 300 : 12); }
template<class T> void gen(Rng& g, std::list<T>& v) { genSeq(g, v, 40); }
template<class T> void gen(Rng& g, std::deque<T>& v) { genSeq(g, v, 40); }
template<class T> void gen(Rng& g, std::set<T>& v) { v.clear(); size_t n = g.len(40); for (size_t i = 0; i < n; i++) { T x; gen(g, x); v.insert(x); } }
template<class T> void gen(Rng& g, std::multiset<T>& v) { v.clear(); size_t n = g.len(40); for (size_t i = 0; i < n; i++) { T x; gen(g, x); if (g.chance(1, 3) && !v.empty()) x = *v.begin(); v.insert(x); } }
template<class K, class V> void gen(Rng& g, std::map<K, V>& v) { v.clear(); size_t n = g.len(20); for (size_t i = 0; i < n; i++) { K k; gen(g, k); gen(g, v[k]); } }
template<class K, class V> void gen(Rng& g, std::multimap<K, V>& v) { v.clear(); size_t n = g.len(20); for (size_t i = 0; i < n; i++) { K k; V x; gen(g, k); gen(g, x); if (g.chance(1, 3) && !v.empty()) k = v.begin()->first; v.insert(std::make_pair(k, x)); } }
template<class K, class V> void gen(Rng& g, std::unordered_map<K, V>& v) { v.clear(); size_t n = g.len(40); for (size_t i = 0; i < n; i++) { K k; gen(g, k); gen(g, v[k]); } }
static void gen(Rng& g, User& u) { gen(g, u.i); gen(g, u.s); gen(g, u.v); gen(g, u.m); }

// reader delivering arbitrary short chunks
struct Dribble { const std::string& s; size_t pos = 0; Rng g; Dribble(const std::string& s, uint64_t seed) : s(s), g(seed) {} size_t readSome(void *buf, size_t n) { size_t r = s.size() - pos; if (n > r) n = r; if (n > 1) n = 1 + g.below(std::min<size_t>(n, 7)); memcpy(buf, s.data() + pos, n); pos += n; return n; } };

template<class T> static std::string ser(const T& x) { std::string o; cybozu::StringOutputStream os(o); cybozu::save(os, x); return o; }
template<class T> static void roundTrip(Rng& g, const char *name)
{
	T x; gen(g, x); note(name);
	std::string b = ser(x), d = fmt("%s %zu bytes: ", name, b.size()) + hex(b, 60);
	// the same bytes whatever the sink
	{ std::ostringstream os; cybozu::save(os, x); VF_CHECK(os.str() == b, std::string("sink-ostream-") + name, d); }
	{ Exact e(b.size()); cybozu::MemoryOutputStream os(e.p, e.n); cybozu::save(os, x); VF_CHECK(os.getPos() == b.size() && e.str() == b, std::string("sink-memory-") + name, d); }
	std::string tail = g.bytes(g.below(5)), bt = b + tail;
	auto chk = [&](const T& y, size_t pos, const char *how) { VF_CHECK(eq(x, y), std::string("roundtrip-") + name, d + how); VF_CHECK(pos == b.size(), std::string("consumed-") + name, d + how); };
	{ T y; gen(g, y); Exact e(bt); cybozu::MemoryInputStream is(e.p, e.n); cybozu::load(y, is); chk(y, is.getPos(), " memory"); }
	{ T y; gen(g, y); cybozu::StringInputStream is(bt); cybozu::load(y, is); chk(y, is.getPos(), " string"); }
	{ T y; gen(g, y); std::istringstream is(bt); cybozu::load(y, is); chk(y, (size_t)is.tellg(), " istream"); }
	{ T y; gen(g, y); Dribble is(bt, g.next()); cybozu::load(y, is); chk(y, is.pos, " short reads"); }
	// a full sink refuses and stays in bounds
	if (!b.empty()) { Exact e(g.below(b.size())); cybozu::MemoryOutputStream os(e.p, e.n); bool th = false; try { cybozu::save(os, x); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th && os.getPos() <= e.n, std::string("small-sink-") + name, d); }
	// every strict prefix is refused
	size_t steps = b.size() < 40 ? b.size() : 12;
	for (size_t i = 0; i < steps; i++) {
		size_t n = b.size() < 40 ? i : g.below(b.size()); std::string p = b.substr(0, n); T y{}; bool th = false;
		try { if (g.chance(1, 2)) { Exact e(p); cybozu::MemoryInputStream is(e.p, e.n); cybozu::load(y, is); } else { Dribble is(p, g.next()); cybozu::load(y, is); } } catch (std::exception&) { th = true; }
		VF_CHECK(th, std::string("truncated-") + name, d + fmt(" prefix %zu accepted", n)); count("truncated");
	}
	// corrupt bytes: a value or a std::exception, nothing else
	for (int i = 0; i < 4 && !b.empty(); i++) {
		std::string c = b; int k = 1 + g.below(3); while (k--) c[g.chance(1, 2) ? g.below(std::min<size_t>(c.size(), 10)) : g.below(c.size())] = g.chance(1, 2) ? (char)(0x80 + g.below(8)) : (char)g.next();
		if (g.chance(1, 3)) c.resize(g.below(c.size() + 1)); Exact e(c); note(std::string(name) + " corrupt " + hex(c, 100)); T y{}; size_t pos = 0;
		try { cybozu::MemoryInputStream is(e.p, e.n); cybozu::load(y, is); pos = is.getPos(); count("corrupt-accepted"); VF_CHECK(pos <= c.size(), "overrun", d); std::string again = ser(y); count("resaved", !again.empty()); }
		catch (std::exception&) { count("corrupt-rejected"); }
	}
	count("roundtrip"); distinct(hashStr(b) ^ hashStr(name)); evals(5); if (wantSample()) sample(d);
}
#define RT(T) roundTrip<T >(g, #T)
typedef std::vector<int> VI; typedef std::vector<std::string> VS; typedef std::vector<VS> VVS; typedef std::map<std::string, VI> MSV; typedef std::map<int, MSV> MM; typedef std::unordered_map<std::string, int> UM; typedef std::unordered_map<int, VS> UM2; typedef std::multimap<int, int> MMI; typedef std::list<std::string> LS; typedef std::deque<int> DI; typedef std::set<std::string> SS; typedef std::multiset<short> MS; typedef std::map<Str, double> MU;
VF_PART(types, 12000, 600000)
{
	Rng& g = rng;
	switch (idx % 28) {
	case 0: RT(bool); break; case 1: RT(char); break; case 2: RT(short); break; case 3: RT(unsigned char); break; case 4: RT(unsigned short); break; case 5: RT(wchar_t); break; case 6: RT(float); break; case 7: RT(double); break;
	case 8: RT(int); break; case 9: RT(unsigned int); break; case 10: RT(long); break; case 11: RT(unsigned long); break; case 12: RT(long long); break; case 13: RT(unsigned long long); break;
	case 14: RT(std::string); break; case 15: RT(Str); break; case 16: RT(VI); break; case 17: RT(VS); break; case 18: RT(VVS); break; case 19: RT(MSV); break; case 20: RT(MM); break; case 21: RT(UM); break; case 22: RT(UM2); break; case 23: RT(VVS); break; case 24: RT(LS); break; case 25: RT(DI); break; case 26: RT(SS); break; case 27: RT(User); break;
	}
	if (idx % 7 == 0) { RT(MS); RT(MU); RT(MMI); }
}
VF_PART(ints, 6000, 1000000)
{
	Rng& g = rng; RT(int); RT(unsigned int); RT(long long); RT(unsigned long long); RT(long); RT(unsigned long);
}
// a record of several values loads back in order from one stream
VF_PART(sequence, 4000, 150000)
{
	std::string b; cybozu::StringOutputStream os(b); int a; unsigned long long u; std::string s; VS v; MSV m; double f; bool t; gen(rng, a); gen(rng, u); gen(rng, s); gen(rng, v); gen(rng, m); gen(rng, f); gen(rng, t);
	cybozu::save(os, a); cybozu::save(os, t); cybozu::save(os, v); cybozu::save(os, u); cybozu::save(os, m); cybozu::save(os, s); cybozu::save(os, f); cybozu::save(os, s.c_str());
	int a2; unsigned long long u2; std::string s2, s3; VS v2; MSV m2; double f2; bool t2; Dribble is(b, rng.next());
	cybozu::load(a2, is); cybozu::load(t2, is); cybozu::load(v2, is); cybozu::load(u2, is); cybozu::load(m2, is); cybozu::load(s2, is); cybozu::load(f2, is); cybozu::load(s3, is);
	VF_CHECK(a == a2 && u == u2 && s == s2 && v == v2 && m == m2 && eq(f, f2) && t == t2 && is.pos == b.size() && s3 == std::string(s.c_str()), "sequence", hex(b, 100)); distinct(hashStr(b)); count("sequence");
}
// big values, whole and in chunks, around powers of two
struct Chunks { const std::string& s; size_t pos = 0; Rng g; Chunks(const std::string& s, uint64_t seed) : s(s), g(seed) {} size_t readSome(void *buf, size_t n) { n = std::min(n, s.size() - pos); if (n > 1) n = 1 + g.below(n); memcpy(buf, s.data() + pos, n); pos += n; return n; } };
template<class T> static void large1(Rng& g, const T& x, const char *nm)
{
	std::string b = ser(x), d = fmt("%s %zu bytes", nm, b.size()); note(d);
	{ T y; Exact e(b); cybozu::MemoryInputStream is(e.p, e.n); cybozu::load(y, is); VF_CHECK(x == y && is.getPos() == b.size(), "large", d); }
	{ T y(x); std::istringstream is(b); cybozu::load(y, is); VF_CHECK(x == y, "large-istream", d); }
	{ T y; Chunks is(b, g.next()); cybozu::load(y, is); VF_CHECK(x == y && is.pos == b.size(), "large-chunks", d); }
	{ std::string p = b.substr(0, b.size() - 1 - g.below(3)); T y; bool th = false; try { cybozu::StringInputStream is(p); cybozu::load(y, is); } catch (std::exception&) { th = true; } VF_CHECK(th, "large-truncated", d); }
	count("large"); evals(4); distinct(hashStr(b));
}
VF_PART(large, 96, 4000)
{
	static const size_t base[] = { 127, 128, 255, 256, 4095, 4096, 8191, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1u << 20 }; size_t n = idx % 12 == 5 ? 65537 + rng.below(4000) : base[rng.below(idx % 12 ? 14 : 15)] + rng.below(3); if (idx % 48 == 1) n = (16u << 20) + 1 + rng.below(5000000);
	std::string s = rng.bytes(n); large1(rng, s, "string"); if (n > 140000) return; std::vector<int> v(n); for (auto& x : v) x = (int)rng.next(); large1(rng, v, "vector"); if (n < 70000) { std::list<std::string> l(n); for (auto& x : l) x = rng.bytes(rng.below(3)); large1(rng, l, "list"); std::map<unsigned, unsigned short> m; for (size_t i = 0; i < n; i++) m[(unsigned)rng.next()] = (unsigned short)i; large1(rng, m, "map"); std::set<long long> t; for (size_t i = 0; i < n; i++) t.insert((long long)rng.next()); large1(rng, t, "set"); std::unordered_map<unsigned, int> um; for (size_t i = 0; i < n; i++) um[(unsigned)rng.next()] = (int)i; large1(rng, um, "unordered_map"); }
	std::string b; cybozu::StringOutputStream os(b); std::vector<uint64_t> p(n), q; for (auto& x : p) x = rng.next(); cybozu::savePodVec(os, p); Chunks is(b, rng.next()); cybozu::loadPodVec(q, is); VF_CHECK(p == q && is.pos == b.size(), "large-podvec", fmt("%zu", n));
}
VF_PART(podvec, 4000, 150000)
{
	std::vector<Pod> v(rng.len(60)); for (auto& p : v) { memset(&p, 0, sizeof(p)); gen(rng, p.a); gen(rng, p.b); gen(rng, p.c); gen(rng, p.d); }
	std::string b; cybozu::StringOutputStream os(b); cybozu::savePodVec(os, v); std::vector<Pod> w(rng.below(5)); Exact e(b); cybozu::MemoryInputStream is(e.p, e.n); cybozu::loadPodVec(w, is); VF_CHECK(v == w && is.getPos() == b.size(), "podvec", fmt("%zu", v.size()));
	for (int i = 0; i < 4 && !b.empty(); i++) { std::string p = b.substr(0, rng.below(b.size())); Exact e2(p); cybozu::MemoryInputStream is2(e2.p, e2.n); std::vector<Pod> z; bool th = false; try { cybozu::loadPodVec(z, is2); } catch (std::exception&) { th = true; } VF_CHECK(th, "podvec-truncated", fmt("%zu", p.size())); }
	std::vector<uint64_t> r(rng.below(6)), r2(r.size()); for (auto& x : r) x = rng.next(); std::string rb; cybozu::StringOutputStream ros(rb); cybozu::saveRange(ros, r.data(), r.size()); VF_EQ(rb.size(), r.size() * 8, "range", ""); cybozu::StringInputStream ris(rb); cybozu::loadRange(r2.data(), r2.size(), ris); VF_CHECK(r == r2, "range", "");
	Pod p, p2; memset(&p, 0, sizeof(p)); p.a = (int)rng.next(); p.d = 1.5; std::string pb; cybozu::StringOutputStream pos(pb); cybozu::savePod(pos, p); VF_EQ(pb.size(), sizeof(Pod), "pod", ""); cybozu::StringInputStream pis(pb); cybozu::loadPod(p2, pis); VF_CHECK(p == p2, "pod", "");
	count("podvec");
}
#ifndef CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER
// the documented on-disk integer format: header byte + little endian payload
template<class T> static void fmt1(Rng& g, const char *nm)
{
	T x; gen(g, x); std::string b = ser(x); std::string d = fmt("%s %llx: ", nm, (unsigned long long)x) + hex(b);
	auto dec = [&](const std::string& s, bool *ok) -> T { *ok = false; unsigned h = (uint8_t)s[0]; if (h < 0x80 || h > 0x87) { *ok = s.size() == 1; return (T)(int8_t)h; } unsigned n = 1u << (h & 3); if (s.size() != n + 1) return 0; uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t)(uint8_t)s[1 + i] << (8 * i); if (h >= 0x84 && n < 8 && (v >> (8 * n - 1))) v |= ~0ull << (8 * n); *ok = true; return (T)v; };
	bool ok = false; T y = dec(b, &ok); VF_CHECK(ok && y == x, "int-format", d);
	unsigned h = 0x80 + g.below(8), n = 1u << (h & 3); std::string c(1, (char)h); c += g.bytes(n); if (g.chance(1, 3)) for (unsigned i = 1; i <= n; i++) c[i] = g.chance(1, 2) ? (char)0xff : (char)0; if (n == 8 && sizeof(T) < 8) return;
	T w = dec(c, &ok), got; cybozu::StringInputStream is(c); cybozu::load(got, is); VF_CHECK(ok && got == w && is.getPos() == c.size(), "int-decode", std::string(nm) + " " + hex(c)); count("format");
}
VF_PART(intformat, 40000, 1000000) { fmt1<int>(rng, "int"); fmt1<unsigned>(rng, "uint"); fmt1<long long>(rng, "llong"); fmt1<unsigned long long>(rng, "ullong"); fmt1<long>(rng, "long"); fmt1<unsigned long>(rng, "ulong"); }
#endif
