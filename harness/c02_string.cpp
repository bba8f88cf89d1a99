// C02: the Unicode string class behaves as a sequence of code points (std::basic_string model).
#include <cybozu/string.hpp>
#include <cybozu/unordered_set.hpp>
#include "common.hpp"
using namespace vf;
typedef cybozu::Char Char; typedef cybozu::Char16 Char16; typedef cybozu::String16 String16; typedef cybozu::String Str; typedef std::wstring Ref;

static std::string enc8(const Ref& r)
{
	std::string o;
	for (wchar_t w : r) { uint32_t c = w;
		if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
		else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
	return o;
}
static String16 enc16(const Ref& r)
{
	String16 o; for (wchar_t w : r) { uint32_t c = w; if (c < 0x10000) o += (Char16)c; else { c -= 0x10000; o += (Char16)(0xD800 + (c >> 10)); o += (Char16)(0xDC00 + (c & 1023)); } } return o;
}
static Char rc(Rng& g)
{
	static const Char pool[] = {'a', 'b', 'a', 'A', 'Z', ' ', 0x7f, 0x80, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0, 0xfffe, 0xfeff, 0xfdd0, 0x1fffe, 0x85, 0xa0, 0x2028, 0x3000};
	if (g.chance(1, 6)) { Char c = (Char)g.below(0x10f800); return c >= 0xd800 ? c + 0x800 : c; }
	return pool[g.below(sizeof(pool) / sizeof(pool[0]))];
}
static Ref rs(Rng& g, size_t mx = 24) { Ref r(g.len(mx), L'a'); bool few = g.chance(1, 2); for (auto& c : r) c = few ? (g.chance(1, 2) ? L'a' : L'b') : rc(g); return r; }
static Ref cut(const Ref& r) { return r.c_str(); } // what a NUL-terminated pointer denotes
static std::string show(const Ref& r) { return hex(enc8(r), 120); }
static int sgn(int x) { return (x > 0) - (x < 0); }

static void same(const Str& s, const Ref& r, const char *op, const std::string& before)
{
	std::string key = std::string("string-") + op, d = fmt("op=%s before=[%s] expect=[%s]", op, before.c_str(), show(r).c_str());
	VF_CHECK(s.size() == r.size() && s.length() == r.size() && s.empty() == r.empty(), key, d + fmt(" size=%zu", s.size()));
	VF_CHECK(std::equal(r.begin(), r.end(), s.data()) && s.c_str()[r.size()] == 0, key, d);
	VF_CHECK(std::equal(r.rbegin(), r.rend(), s.rbegin()) && std::equal(r.begin(), r.end(), s.begin()) && (size_t)(s.end() - s.begin()) == r.size(), key, d);
	VF_CHECK(s.get() == r && s.capacity() >= s.size(), key, d);
}
// runs f on string and model; exceptions (out_of_range) must agree, leaving the value unchanged
template<class F, class G> static void both(Str& s, Ref& r, const char *op, F f, G g)
{
	std::string before = show(r); int es = 0, er = 0; note(std::string(op) + " " + before);
	try { f(); } catch (std::out_of_range&) { es = 1; } catch (cybozu::Exception&) { es = 2; }
	try { g(); } catch (std::out_of_range&) { er = 1; }
	VF_CHECK(es == er, std::string("string-") + op + "-exception", "before=" + before);
	same(s, r, op, before); count(op);
}
struct Z32 { std::vector<Char> v; explicit Z32(const Ref& r, bool nul = true) : v(r.begin(), r.end()) { if (nul) v.push_back(0); v.shrink_to_fit(); } const Char *p() const { return v.data(); } };
struct Z16 { std::vector<Char16> v; explicit Z16(const Ref& r) { String16 e = enc16(r); v.assign(e.begin(), e.end()); v.push_back(0); v.shrink_to_fit(); } const Char16 *p() const { return v.data(); } };
struct Z8 { std::vector<char> v; explicit Z8(const Ref& r) { std::string e = enc8(r); v.assign(e.begin(), e.end()); v.push_back(0); v.shrink_to_fit(); } const char *p() const { return v.data(); } size_t n() const { return v.size() - 1; } };

static void mutate(Rng& g, Str& s, Ref& r, Str& t, Ref& q)
{
	const Ref x = rs(g), x0 = cut(x); const std::string x8 = enc8(x); Z32 z(x); Z16 z16(x); Z8 z8(x);
	const Char c = rc(g); const size_t n = g.below(5);
	size_t off = g.below(r.size() + (g.chance(1, 12) ? 3 : 1)), cnt = g.chance(1, 6) ? Str::npos : g.below(r.size() + 3);
	size_t off2 = g.below(q.size() + (g.chance(1, 12) ? 3 : 1)), cnt2 = g.chance(1, 6) ? Str::npos : g.below(q.size() + 3);
	size_t xn = g.below(x.size() + 1);
	size_t b = g.below(r.size() + 1), e = b + g.below(r.size() - b + 1);
	size_t so = g.below(r.size() + 1), sn = g.below(r.size() - so + 1); // self range
	if (r.size() > 400) { s.clear(); r.clear(); return; }
	switch (g.below(79)) {
	case 0: both(s, r, "assign-str", [&] { s.assign(t); }, [&] { r.assign(q); }); break;
	case 1: both(s, r, "assign-sub", [&] { s.assign(t, off2, cnt2); }, [&] { r.assign(q, off2, cnt2); }); break;
	case 2: both(s, r, "assign-ptr-n", [&] { s.assign(z.p(), xn); }, [&] { r.assign(x, 0, xn); }); break;
	case 3: both(s, r, "assign-ptr", [&] { s.assign(z.p()); }, [&] { r = x0; }); break;
	case 4: both(s, r, "assign-utf16", [&] { s.assign(z16.p()); }, [&] { r = x0; }); break;
	case 5: both(s, r, "assign-fill", [&] { s.assign(n, c); }, [&] { r.assign(n, c); }); break;
	case 6: both(s, r, "assign-range8", [&] { s.assign(x8.begin(), x8.end()); }, [&] { r = x; }); break;
	case 7: both(s, r, "assign-char-n", [&] { s.assign(z8.p(), z8.n()); }, [&] { r = x; }); break;
	case 8: both(s, r, "assign-char", [&] { s.assign(z8.p()); }, [&] { r = x0; }); break;
	case 9: both(s, r, "assign-stdstr", [&] { s = x8; }, [&] { r = x; }); break;
	case 10: both(s, r, "op-assign-c", [&] { s = c; }, [&] { r = c; }); break;
	case 11: both(s, r, "op-assign-str", [&] { s = t; }, [&] { r = q; }); break;
	case 12: both(s, r, "append-str", [&] { s.append(t); }, [&] { r += q; }); break;
	case 13: both(s, r, "append-sub", [&] { s.append(t, off2, cnt2); }, [&] { r.append(q, off2, cnt2); }); break;
	case 14: both(s, r, "append-ptr-n", [&] { s.append(z.p(), xn); }, [&] { r.append(x, 0, xn); }); break;
	case 15: both(s, r, "append-ptr", [&] { s.append(z.p()); }, [&] { r += x0; }); break;
	case 16: both(s, r, "append-fill", [&] { s.append(n, c); }, [&] { r.append(n, c); }); break;
	case 17: both(s, r, "append-range8", [&] { s.append(x8.begin(), x8.end()); }, [&] { r += x; }); break;
	case 18: both(s, r, "append-range32", [&] { s.append(x.begin(), x.end()); }, [&] { r += x; }); break;
	case 19: both(s, r, "append-char-n", [&] { s.append(z8.p(), z8.n()); }, [&] { r += x; }); break;
	case 20: both(s, r, "append-char", [&] { s.append(z8.p()); }, [&] { r += x0; }); break;
	case 21: both(s, r, "append-utf16", [&] { s.append(z16.p()); }, [&] { r += x0; }); break;
	case 22: both(s, r, "append-utf16-range", [&] { s.append(z16.p(), z16.p() + z16.v.size() - 1); }, [&] { r += x; }); break;
	case 23: both(s, r, "append-stdstr", [&] { s.append(x8); }, [&] { r += x; }); break;
	case 24: both(s, r, "op-plus-assign", [&] { s += t; s += c; }, [&] { r += q; r += c; }); break;
	case 25: both(s, r, "op-plus-assign-ptr", [&] { s += z.p(); }, [&] { r += x0; }); break;
	case 26: both(s, r, "insert-str", [&] { s.insert(off, t); }, [&] { r.insert(off, q); }); break;
	case 27: both(s, r, "insert-sub", [&] { s.insert(off, t, off2, cnt2); }, [&] { r.insert(off, q, off2, cnt2); }); break;
	case 28: both(s, r, "insert-ptr-n", [&] { s.insert(off, z.p(), xn); }, [&] { r.insert(off, x, 0, xn); }); break;
	case 29: both(s, r, "insert-ptr", [&] { s.insert(off, z.p()); }, [&] { r.insert(off, x0); }); break;
	case 30: both(s, r, "insert-fill", [&] { s.insert(off, n, c); }, [&] { r.insert(off, n, c); }); break;
	case 31: both(s, r, "insert-iter-c", [&] { auto it = s.insert(s.begin() + b, c); VF_CHECK((size_t)(it - s.begin()) == b, "string-insert-iter-c", "iterator"); }, [&] { r.insert(r.begin() + b, c); }); break;
	case 32: both(s, r, "insert-iter-fill", [&] { s.insert(s.begin() + b, n, c); }, [&] { r.insert(r.begin() + b, n, c); }); break;
	case 33: both(s, r, "insert-iter-range", [&] { s.insert(s.begin() + b, x.begin(), x.end()); }, [&] { r.insert(r.begin() + b, x.begin(), x.end()); }); break;
	case 34: both(s, r, "insert-iter-range8", [&] { s.insert(s.begin() + b, x8.begin(), x8.end()); }, [&] { r.insert(r.begin() + b, x.begin(), x.end()); }); break;
	case 35: both(s, r, "erase", [&] { s.erase(off, cnt); }, [&] { r.erase(off, cnt); }); break;
	case 36: if (b < r.size()) both(s, r, "erase-iter", [&] { auto it = s.erase(s.begin() + b); VF_CHECK((size_t)(it - s.begin()) == b, "string-erase-iter", "iterator"); }, [&] { r.erase(r.begin() + b); }); break;
	case 37: both(s, r, "erase-range", [&] { s.erase(s.begin() + b, s.begin() + e); }, [&] { r.erase(b, e - b); }); break;
	case 38: both(s, r, "replace-str", [&] { s.replace(off, cnt, t); }, [&] { r.replace(off, cnt, q); }); break;
	case 39: both(s, r, "replace-sub", [&] { s.replace(off, cnt, t, off2, cnt2); }, [&] { r.replace(off, cnt, q, off2, cnt2); }); break;
	case 40: both(s, r, "replace-ptr-n", [&] { s.replace(off, cnt, z.p(), xn); }, [&] { r.replace(off, cnt, x, 0, xn); }); break;
	case 41: both(s, r, "replace-ptr", [&] { s.replace(off, cnt, z.p()); }, [&] { r.replace(off, cnt, x0); }); break;
	case 42: both(s, r, "replace-fill", [&] { s.replace(off, cnt, n, c); }, [&] { r.replace(off, cnt, n, c); }); break;
	case 43: both(s, r, "replace-iter-str", [&] { s.replace(s.begin() + b, s.begin() + e, t); }, [&] { r.replace(b, e - b, q); }); break;
	case 44: both(s, r, "replace-iter-ptr-n", [&] { s.replace(s.begin() + b, s.begin() + e, z.p(), xn); }, [&] { r.replace(b, e - b, x, 0, xn); }); break;
	case 45: both(s, r, "replace-iter-ptr", [&] { s.replace(s.begin() + b, s.begin() + e, z.p()); }, [&] { r.replace(b, e - b, x0); }); break;
	case 46: both(s, r, "replace-iter-fill", [&] { s.replace(s.begin() + b, s.begin() + e, n, c); }, [&] { r.replace(b, e - b, n, c); }); break;
	case 47: both(s, r, "replace-iter-range8", [&] { s.replace(s.begin() + b, s.begin() + e, x8.begin(), x8.end()); }, [&] { r.replace(b, e - b, x); }); break;
	case 48: both(s, r, "replace-iter-range", [&] { s.replace(s.begin() + b, s.begin() + e, x.begin(), x.end()); }, [&] { r.replace(b, e - b, x); }); break;
	case 49: both(s, r, "resize", [&] { s.resize(off, c); s.resize(cnt2 == Str::npos ? 3 : cnt2); }, [&] { r.resize(off, c); r.resize(cnt2 == Str::npos ? 3 : cnt2); }); break;
	case 50: both(s, r, "push-back", [&] { s.push_back(c); }, [&] { r.push_back(c); }); break;
	case 51: if (!r.empty()) both(s, r, "pop-back", [&] { s.pop_back(); }, [&] { r.pop_back(); }); break;
	case 52: both(s, r, "swap", [&] { s.swap(t); }, [&] { r.swap(q); }); same(t, q, "swap", show(r)); break;
	case 53: both(s, r, "free-swap", [&] { cybozu::swap(s, t); }, [&] { r.swap(q); }); same(t, q, "free-swap", show(r)); break;
	case 54: { Str u(t); Ref w(q); both(s, r, "move-assign", [&] { s = std::move(u); }, [&] { r = w; }); break; }
	case 55: { Str u(t); both(s, r, "move-ctor", [&] { Str v(std::move(u)); s.swap(v); }, [&] { r = q; }); break; }
	// ---- aliasing: the argument is (part of) the string itself ----
	case 56: both(s, r, "self-assign", [&] { Str& w = s; s = w; s.assign(w); }, [&] {}); break;
	case 57: both(s, r, "self-assign-sub", [&] { s.assign(s, so, sn); }, [&] { r = Ref(r, so, sn); }); break;
	case 58: both(s, r, "self-assign-ptr", [&] { s.assign(s.data() + so, sn); }, [&] { r = Ref(r, so, sn); }); break;
	case 59: both(s, r, "self-append", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.append(s); }, [&] { r += Ref(r); }); break;
	case 60: both(s, r, "self-append-ptr", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.append(s.data() + so, sn); }, [&] { r += Ref(r, so, sn); }); break;
	case 61: if (r.find(L'\0') == Ref::npos) both(s, r, "self-assign-cstr", [&] { s = s.c_str() + so; }, [&] { r = Ref(r, so); }); break;
	case 62: both(s, r, "self-insert", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.insert(off, s); }, [&] { r.insert(off, Ref(r)); }); break;
	case 63: both(s, r, "self-insert-sub", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.insert(off, s, so, sn); }, [&] { r.insert(off, Ref(r), so, sn); }); break;
	case 64: both(s, r, "self-insert-ptr", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.insert(b, s.data() + so, sn); }, [&] { r.insert(b, Ref(r, so, sn)); }); break;
	case 65: both(s, r, "self-insert-range", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.insert(s.begin() + b, s.begin() + so, s.begin() + so + sn); }, [&] { r.insert(b, Ref(r, so, sn)); }); break;
	case 66: both(s, r, "self-replace", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.replace(off, cnt, s); }, [&] { r.replace(off, cnt, Ref(r)); }); break;
	case 67: both(s, r, "self-replace-sub", [&] { s.replace(off, cnt, s, so, sn); }, [&] { r.replace(off, cnt, Ref(r), so, sn); }); break;
	case 68: both(s, r, "self-replace-ptr", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.replace(b, e - b, s.data() + so, sn); }, [&] { r.replace(b, e - b, Ref(r, so, sn)); }); break;
	case 69: both(s, r, "self-replace-range", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.replace(s.begin() + b, s.begin() + e, s.begin() + so, s.begin() + so + sn); }, [&] { r.replace(b, e - b, Ref(r, so, sn)); }); break;
	case 70: both(s, r, "self-replace-iter", [&] { s.replace(s.begin() + b, s.begin() + e, s); }, [&] { r.replace(b, e - b, Ref(r)); }); break;
	case 71: both(s, r, "self-append-sub", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.append(s, so, sn); }, [&] { r += Ref(r, so, sn); }); break;
	case 72: both(s, r, "self-append-range", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s.append(s.begin() + so, s.begin() + so + sn); }, [&] { r += Ref(r, so, sn); }); break;
	case 73: both(s, r, "self-append-prange", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); const Char *p = s.data() + so; s.append(p, p + sn); }, [&] { r += Ref(r, so, sn); }); break;
	case 74: both(s, r, "self-assign-range", [&] { s.assign(s.begin() + so, s.begin() + so + sn); }, [&] { r = Ref(r, so, sn); }); break;
	case 75: both(s, r, "self-plus-assign", [&] { if (g.chance(1, 2)) s.shrink_to_fit(); s += s; }, [&] { r += Ref(r); }); break;
	case 76: both(s, r, "reserve", [&] { s.reserve(g.below(r.size() + 40)); if (g.chance(1, 3)) s.reserve(); VF_CHECK(s.capacity() >= r.size(), "string-reserve", ""); }, [&] {}); break;
	case 77: both(s, r, "op-plus-assign-c", [&] { s += c; }, [&] { r += c; }); break;
	case 78: { Str u(t); both(s, r, "moved-from-reuse", [&] { s = std::move(u); u = t; u += t; s = u; }, [&] { r = q + q; }); break; }
	}
}
static void query(Rng& g, const Str& s, const Ref& r, const Str& t, const Ref& q)
{
	Ref x = g.chance(1, 2) && !r.empty() ? r.substr(g.below(r.size()), g.below(4)) : rs(g, 6); Z32 z(x); Str xs(x.data(), x.size()); const Char c = rc(g); size_t xn = g.below(x.size() + 1);
	size_t off = g.chance(1, 5) ? Str::npos : g.below(r.size() + 3); size_t k = g.below(r.size() + 2), n = g.chance(1, 5) ? Str::npos : g.below(r.size() + 2);
	std::string d = fmt("s=[%s] x=[%s] off=%zu xn=%zu", show(r).c_str(), show(x).c_str(), off, xn); note(d);
#define Q(NAME) \
	VF_EQ(s.NAME(xs, off), r.NAME(x, off), "string-" #NAME, d); VF_EQ(s.NAME(z.p(), off, xn), r.NAME(x.c_str(), off, xn), "string-" #NAME "-n", d); \
	VF_EQ(s.NAME(z.p(), off), r.NAME(x.c_str(), off), "string-" #NAME "-p", d); VF_EQ(s.NAME(c, off), r.NAME((wchar_t)c, off), "string-" #NAME "-c", d); \
	VF_EQ(s.NAME(xs), r.NAME(x), "string-" #NAME "-def", d); VF_EQ(s.NAME(c), r.NAME((wchar_t)c), "string-" #NAME "-cdef", d); VF_EQ(s.NAME(z.p()), r.NAME(x.c_str()), "string-" #NAME "-pdef", d)
	Q(find); Q(rfind); Q(find_first_of); Q(find_last_of); Q(find_first_not_of); Q(find_last_not_of);
	VF_EQ(sgn(s.compare(t)), sgn(r.compare(q)), "string-compare", d + " t=" + show(q));
	VF_EQ(s == t, r == q, "string-rel", d); VF_EQ(s != t, r != q, "string-rel", d); VF_EQ(s < t, r < q, "string-rel", d); VF_EQ(s > t, r > q, "string-rel", d); VF_EQ(s <= t, r <= q, "string-rel", d); VF_EQ(s >= t, r >= q, "string-rel", d);
	const std::string q8 = enc8(q); Z32 qz(q); Z16 qz16(q);
	{ const Str::BasicString bq(q.begin(), q.end()), br(r.begin(), r.end()); for (int k = 0; k < 2; k++) { const Str::BasicString& b = k ? br : bq; const auto& m = k ? r : q; VF_EQ(b == s, m == r, "string-relb", d); VF_EQ(b != s, m != r, "string-relb", d); VF_EQ(b <= s, m <= r, "string-relb", d); VF_EQ(b >= s, m >= r, "string-relb", d); VF_EQ(b < s, m < r, "string-relb", d); VF_EQ(b > s, m > r, "string-relb", d); VF_EQ(s == b, r == m, "string-relb", d); VF_EQ(s != b, r != m, "string-relb", d); VF_EQ(s <= b, r <= m, "string-relb", d); VF_EQ(s >= b, r >= m, "string-relb", d); VF_EQ(s < b, r < m, "string-relb", d); VF_EQ(s > b, r > m, "string-relb", d); } }
	{ const std::string r8 = s.toUtf8(); VF_CHECK(s == r8 && r8 == s && !(s != r8) && !(r8 != s) && s <= r8 && r8 <= s && s >= r8 && r8 >= s && !(s < r8) && !(r8 < s) && !(s > r8) && !(r8 > s), "string-rel-self8", d); }
	VF_EQ(s == q8, r == q, "string-rel8", d); VF_EQ(s < q8, r < q, "string-rel8", d); VF_EQ(q8 < s, q < r, "string-rel8", d); VF_EQ(q8 >= s, q >= r, "string-rel8", d); VF_EQ(q8 == s, q == r, "string-rel8", d); VF_EQ(q8 != s, q != r, "string-rel8", d); VF_EQ(q8 > s, q > r, "string-rel8", d); VF_EQ(q8 <= s, q <= r, "string-rel8", d);
	if (q.find(L'\0') == Ref::npos) {
		VF_EQ(qz.p() == s, q == r, "string-relp", d); VF_EQ(qz.p() != s, q != r, "string-relp", d); VF_EQ(qz.p() < s, q < r, "string-relp", d); VF_EQ(qz.p() > s, q > r, "string-relp", d); VF_EQ(qz.p() <= s, q <= r, "string-relp", d); VF_EQ(qz.p() >= s, q >= r, "string-relp", d);
		VF_EQ(qz16.p() == s, q == r, "string-rel16", d); VF_EQ(qz16.p() < s, q < r, "string-rel16", d); VF_EQ(qz16.p() > s, q > r, "string-rel16", d); VF_EQ(qz16.p() <= s, q <= r, "string-rel16", d); VF_EQ(qz16.p() >= s, q >= r, "string-rel16", d); VF_EQ(qz16.p() != s, q != r, "string-rel16", d);
	}
	int es = 0, er = 0, a = 0, b = 0;
	try { a = s.compare(k, n, t); } catch (std::out_of_range&) { es = 1; } try { b = r.compare(k, n, q); } catch (std::out_of_range&) { er = 1; }
	VF_CHECK(es == er && sgn(a) == sgn(b), "string-compare-sub", d);
	es = er = a = b = 0; size_t k2 = g.below(q.size() + 2);
	try { a = s.compare(k, n, t, k2, n); } catch (std::out_of_range&) { es = 1; } try { b = r.compare(k, n, q, k2, n); } catch (std::out_of_range&) { er = 1; }
	VF_CHECK(es == er && sgn(a) == sgn(b), "string-compare-sub2", d);
	es = er = a = b = 0;
	try { a = s.compare(k, n, z.p(), xn); } catch (std::out_of_range&) { es = 1; } try { b = r.compare(k, n, x.c_str(), xn); } catch (std::out_of_range&) { er = 1; }
	VF_CHECK(es == er && sgn(a) == sgn(b), "string-compare-ptr", d);
	es = er = a = b = 0;
	try { a = s.compare(k, n, z.p()); } catch (std::out_of_range&) { es = 1; } try { b = r.compare(k, n, x.c_str()); } catch (std::out_of_range&) { er = 1; }
	VF_CHECK(es == er && sgn(a) == sgn(b), "string-compare-z", d);
	Str sub; Ref rsub; es = er = 0;
	try { sub = s.substr(k, n); } catch (std::out_of_range&) { es = 1; } try { rsub = r.substr(k, n); } catch (std::out_of_range&) { er = 1; }
	VF_CHECK(es == er && sub.get() == rsub, "string-substr", d);
	es = er = 0; Char ca = 0, cb = 0;
	try { ca = s.at(k); } catch (std::out_of_range&) { es = 1; } try { cb = r.at(k); } catch (std::out_of_range&) { er = 1; }
	VF_CHECK(es == er && ca == cb, "string-at", d);
	if (k > r.size()) { Char o[1]; bool th = false; try { s.copy(o, 1, k); } catch (std::out_of_range&) { th = true; } VF_CHECK(th, "string-copy-range", d); }
	if (k <= r.size()) { size_t m = std::min(n, r.size() - k); std::vector<Char> o(m); size_t got = s.copy(o.data(), n == Str::npos ? m : n < m ? n : m, k); VF_CHECK(got == m && std::equal(o.begin(), o.end(), r.begin() + k), "string-copy", d); }
	if (!r.empty()) VF_CHECK(s.front() == r.front() && s.back() == r.back() && s[r.size() - 1] == r.back(), "string-front", d);
	// the hash is a function of the value
	Str again(r.begin(), r.end()); VF_EQ(std::hash<Str>()(again), std::hash<Str>()(s), "string-hash", d); VF_EQ(boost::hash<Str>()(again), boost::hash<Str>()(s), "string-hash", d);
	VF_CHECK((s + t).get() == r + q && (Str(s) + t).get() == r + q, "string-plus", d);
	VF_CHECK(s.toUtf8() == enc8(r) && s.toUtf16() == enc16(r) && s.isValid(), "string-encode", d);
	std::string pre = "p"; s.toUtf8(pre); VF_EQ(pre, "p" + enc8(r), "string-encode-append", d);
	std::ostringstream os; os << s; VF_EQ(os.str(), enc8(r), "string-ostream", d);
	if (r.find(L'\n') == Ref::npos) { std::istringstream is(enc8(r) + "\nrest"); Str l; cybozu::getline(is, l); VF_CHECK(l.get() == r, "string-getline", d); }
	{ const std::string in = enc8(r) + "\n"; std::istringstream a(in), b(in); Str l("old"); std::string m = "old"; char dl = g.chance(1, 2) ? '\n' : 'b'; // as std::getline, until the stream is exhausted
		while (b.good()) { cybozu::getline(a, l, dl); std::getline(b, m, dl); VF_CHECK(l.toUtf8() == m && a.rdstate() == b.rdstate(), "string-getline-all", d); } }
	{ const std::string in = " " + enc8(r); std::istringstream a(in), b(in); Str l("old"); std::string m = "old"; a >> l; b >> m; if (b) VF_CHECK(l.toUtf8() == m, "string-istream", d); VF_CHECK(a.rdstate() == b.rdstate(), "string-istream-state", d); }
	// a character that is not a Unicode scalar value is reported wherever it stands
	{ Ref w = r; static const Char bad[] = {-1, 0xd800, 0xdfff, 0x110000, 0x7fffffff}; w.insert(w.begin() + g.below(w.size() + 1), bad[g.below(5)]); Str u(w.data(), w.size()); int th = 0; VF_CHECK(!u.isValid(), "string-isvalid", show(r)); try { u.toUtf8(); } catch (cybozu::Exception&) { th++; } try { u.toUtf16(); } catch (cybozu::Exception&) { th++; } std::ostringstream os2; try { os2 << u; } catch (cybozu::Exception&) { th++; } VF_CHECK(th == 3, "string-bad-encode", d); }
	distinct(hashStr(enc8(r) + "|" + enc8(q)));
	if (wantSample()) sample(d);
}
VF_PART(history, 12000, 400000)
{
	Ref r = rs(rng), q = rs(rng); Str s(r.data(), r.size()), t(q.data(), q.size());
	int n = 6 + rng.below(30);
	for (int i = 0; i < n; i++) { if (rng.chance(1, 3)) mutate(rng, t, q, s, r); else mutate(rng, s, r, t, q); if (q.size() > 300) { t.clear(); q.clear(); } if (r.size() > 300) { s.clear(); r.clear(); } evals(); if (rng.chance(1, 4)) query(rng, s, r, t, q); }
}
VF_PART(construct, 8000, 200000)
{
	Ref x = rs(rng, 90), x0 = cut(x); std::string d = show(x), x8 = enc8(x); Z32 z(x); Z16 z16(x); Z8 z8(x); size_t o = rng.below(x.size() + 1), n = rng.below(x.size() + 3);
	same(Str(z.p()), x0, "ctor-ptr", d); same(Str(z.p(), x.size()), x, "ctor-ptr-n", d); same(Str(z8.p()), x0, "ctor-char", d); same(Str(z8.p(), z8.n()), x, "ctor-char-n", d);
	same(Str(x8), x, "ctor-stdstr", d); same(Str(z16.p()), x0, "ctor-utf16", d); same(Str(enc16(x)), x, "ctor-str16", d); same(Str(Str::BasicString(x)), x, "ctor-basic", d);
	same(Str(x.begin(), x.end()), x, "ctor-range", d); same(Str(x8.begin(), x8.end()), x, "ctor-range8", d); Exact ex(x8); same(Str(ex.begin(), ex.end()), x, "ctor-charrange", d);
	Str s(z.p(), x.size()); same(Str(s), x, "ctor-copy", d); same(Str(s, o, n), x.substr(o, n), "ctor-sub", d); same(Str(s, o), x.substr(o), "ctor-sub-def", d); same(Str(n, L'q'), Ref(n, L'q'), "ctor-fill", d); same(Str(), Ref(), "ctor-empty", d);
	{ int th = 0; size_t o2 = x.size() + 1 + rng.below(4); try { Str u(s, o2); } catch (std::out_of_range&) { th++; } try { Str u(s, o2, 0); } catch (std::out_of_range&) { th++; } VF_CHECK(th == 2, "ctor-sub-range", d); }
	count("ctor"); distinct(hashStr(x8));
}
VF_LONG(longhistory, history, 200, 6000, 3000)
VF_LONG(longconstruct, construct, 100, 3000, 400000)
