// C03: trim / case folding / search / split helpers.
#include <cybozu/string_operation.hpp>
#include <list>
#include "common.hpp"
using namespace vf;
typedef cybozu::Char Char; typedef cybozu::String Str;
static std::string dec(const Str& s) { return s.isValid() ? hex(s.toUtf8()) : "<invalid>"; }
static std::string dec(const std::string& s) { return hex(s); }
static bool spaceRef(Char c)
{
	static const Char tbl[] = {9, 10, 11, 12, 13, 0x20, 0x85, 0xA0, 0x1680, 0x180E, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000, 0xFEFF};
	for (Char t : tbl) if (t == c) return true;
	return false;
}
static bool spaceRef(char c) { return c == ' ' || c == '\t'; }
template<class C> C low(C c) { return c >= 'A' && c <= 'Z' ? C(c + 32) : c; }
template<class C> C upp(C c) { return c >= 'a' && c <= 'z' ? C(c - 32) : c; }

template<class S> struct Gen;
template<> struct Gen<std::string> { static char c(Rng& g) { return g.chance(1, 12) ? (char)g.next() : g.pickc("aAbBzZ@[`{ \t\n\r,;.:x"); } };
template<> struct Gen<Str> { static Char c(Rng& g) {
	static const Char p[] = {0x85, 0xA0, 0x1680, 0x180E, 0x180D, 0x180F, 0x2000, 0x200A, 0x200B, 0x1FFF, 0x2027, 0x2028, 0x2029, 0x202A, 0x202F, 0x2030, 0x205F, 0x2060, 0x3000, 0x3001, 0xFEFF, 0xFEFE, 0xFF00, 0x84, 0x86, 0x9F, 0xA1, 8, 14, 0x1F, 0x21, 0x4141, 0x10041, 0x161, 0x141, 0x3042, 0xFF21};
	if (g.chance(1, 3)) return p[g.below(sizeof(p) / sizeof(p[0]))];
	return g.pickc("aAbBzZ@[`{ \t\n\r,;.:x"); } };
template<class S> S gen(Rng& g, size_t mx) { S s; size_t n = g.len(mx); for (size_t i = 0; i < n; i++) s.push_back(Gen<S>::c(g)); return s; }
template<class C> bool isX(C c) { return c == 'x' || c == 'a'; }

template<class S> void run(Rng& g)
{
	typedef typename S::value_type C;
	S s = gen<S>(g, 60); if (g.budget && g.chance(1, 2)) { size_t n = 0; if (g.grow(&n)) s.append(n, C(g.chance(1, 2) ? ' ' : '\n')); if (g.grow(&n)) s = S(n, C('\t')) + s; } std::string d = dec(s); note(d);
	{ // trim
		size_t b = 0, e = s.size(); while (b < e && spaceRef((C)s[b])) b++; while (e > b && spaceRef((C)s[e - 1])) e--;
		S want(s, b, e - b), t = s; cybozu::Trim(t); VF_CHECK(t == want, "trim", d + " -> " + dec(t)); VF_CHECK(cybozu::TrimCopy(s) == want, "trimcopy", d);
		std::vector<C> v(s.begin(), s.end()); v.shrink_to_fit(); const C *p = v.data(), *q = p + v.size();
		size_t b0 = 0; while (b0 < s.size() && spaceRef((C)s[b0])) b0++;
		VF_CHECK(cybozu::SkipSpace(p, q) == p + b0, "skipspace", d);
		b = 0; e = s.size(); while (b < e && isX<C>(s[b])) b++; while (e > b && isX<C>(s[e - 1])) e--;
		t = s; cybozu::Trim(t, isX<C>); VF_CHECK(t == S(s, b, e - b) && cybozu::TrimCopy(s, isX<C>) == S(s, b, e - b), "trim-custom", d);
		count("trim");
	}
	{ // case conversion
		S lo = s, up = s; for (size_t i = 0; i < s.size(); i++) { lo[i] = low<C>(s[i]); up[i] = upp<C>(s[i]); }
		S t = s; cybozu::ToLower(t); VF_CHECK(t == lo, "tolower", d); t = s; cybozu::ToUpper(t); VF_CHECK(t == up, "toupper", d);
		S o = gen<S>(g, 8), o0 = o; cybozu::ToLower(o, s, cybozu::string::DoAppend); VF_CHECK(o == o0 + lo, "tolower-append", d); o = o0; cybozu::ToUpper(o, s, true); VF_CHECK(o == o0 + up, "toupper-append", d);
		{ S w = s; w.shrink_to_fit(); cybozu::ToLower(w, w, cybozu::string::DoAppend); VF_CHECK(w == s + lo, "tolower-self-append", d); w = s; cybozu::ToUpper(w, w, true); VF_CHECK(w == s + up, "toupper-self-append", d); }
		o = o0; cybozu::ToLower(o, s); VF_CHECK(o == lo, "tolower-out", d); o = o0; cybozu::ToUpper(o, s); VF_CHECK(o == up, "toupper-out", d);
		t = s; cybozu::Strip(t); size_t e = s.size(); while (e && (s[e - 1] == '\n' || s[e - 1] == '\r')) e--; VF_CHECK(t == S(s, 0, e), "strip", d);
		count("case");
	}
	{ // compare
		S r = s; int k = g.below(4); if (k == 0) r = gen<S>(g, 60); else for (size_t i = 0; i < r.size(); i++) if (g.chance(1, 3)) r[i] = g.chance(1, 2) ? low<C>(r[i]) : upp<C>(r[i]);
		if (k == 1 && r.size()) r.resize(g.below(r.size())); if (k == 2 && r.size()) r[g.below(r.size())] = Gen<S>::c(g); if (g.chance(1, 8)) r.push_back(Gen<S>::c(g));
		int want = 0; size_t n = std::min(s.size(), r.size());
		for (size_t i = 0; i < n && !want; i++) { C a = low<C>(s[i]), b = low<C>(r[i]); want = a < b ? -1 : a > b ? 1 : 0; }
		if (!want) want = s.size() < r.size() ? -1 : s.size() > r.size() ? 1 : 0;
		std::string dd = d + " vs " + dec(r); std::vector<C> va(s.begin(), s.end()), vb(r.begin(), r.end());
		VF_EQ(cybozu::CaseCompare(s, r), want, "casecompare", dd); VF_EQ(cybozu::CaseEqual(s, r), want == 0, "caseequal", dd);
		VF_EQ(cybozu::CaseCompare(va.data(), va.size(), vb.data(), vb.size()), want, "casecompare-ptr", dd);
		VF_EQ(cybozu::CaseEqual(va.data(), va.size(), vb.data(), vb.size()), want == 0, "caseequal-ptr", dd);
		count(want ? "cmp-ne" : "cmp-eq");
	}
	{ // prefix / ASCII comparisons
		std::string a; size_t n = g.upto(4); bool ok = true; for (size_t i = 0; i < n; i++) { C c = i < s.size() ? (C)s[i] : C('q'); if (!(c > 0 && c < 0x7f)) c = 'k'; a += (char)(g.chance(1, 2) ? low<C>(c) : upp<C>(c)); }
		bool want = s.size() == a.size(); for (size_t i = 0; want && i < a.size(); i++) want = low<C>(s[i]) == low<C>((C)a[i]);
		VF_EQ(cybozu::CaseEqual(s, a.c_str()), want, "caseequal-char", d + " vs " + hex(a));
		static const char p1[] = "aB", p2[] = "Zx,", p0[] = "";
		auto pre = [&](const char *p, size_t m) { if (s.size() < m) return false; for (size_t i = 0; i < m; i++) if (low<C>(s[i]) != low<C>((C)p[i])) return false; return true; };
		VF_EQ(cybozu::CaseEqualStartWith(s, p1), pre(p1, 2), "startwith", d); VF_EQ(cybozu::CaseEqualStartWith(s, p2), pre(p2, 3), "startwith", d); VF_EQ(cybozu::CaseEqualStartWith(s, p0), true, "startwith", d);
		{ // a string shorter than the literal never matches, even where the literal continues with NUL
			static const char z1[] = "ab\0", z2[] = "\0\0\0", z3[] = "x\0y"; S q; size_t m = g.below(5); for (size_t i = 0; i < m; i++) q.push_back(g.chance(1, 3) ? C(0) : C(i == 0 ? (g.chance(1, 2) ? 'A' : 'x') : i == 1 ? 'b' : 'y'));
			auto pre2 = [&](const char *p, size_t m2) { if (q.size() < m2) return false; for (size_t i = 0; i < m2; i++) if (low<C>(q[i]) != low<C>((C)p[i])) return false; return true; };
			VF_EQ(cybozu::CaseEqualStartWith(q, z1), pre2(z1, 3), "startwith-nul", dec(q)); VF_EQ(cybozu::CaseEqualStartWith(q, z2), pre2(z2, 3), "startwith-nul", dec(q)); VF_EQ(cybozu::CaseEqualStartWith(q, z3), pre2(z3, 3), "startwith-nul", dec(q)); }
		S s2; s2.push_back(g.chance(1, 2) ? 'A' : 'a'); s2.push_back(g.chance(1, 2) ? 'B' : 'b'); s2 += s; VF_EQ(cybozu::CaseEqualStartWith(s2, p1), true, "startwith", dec(s2));
	}
	{ // find
		S t; size_t at = 0; if (s.size() && g.chance(2, 3)) { at = g.below(s.size()); t = S(s, at, g.budget && s.size() > 100 && g.chance(1, 2) ? 60 + g.below(s.size()) : g.upto(4)); } else t = gen<S>(g, 3);
		if (g.chance(1, 3)) for (size_t i = 0; i < t.size(); i++) t[i] = g.chance(1, 2) ? low<C>(t[i]) : upp<C>(t[i]);
		std::string t8; if constexpr (std::is_same<S, Str>::value) t8 = t.toUtf8(); else t8 = t;
		size_t want = std::string::npos; for (size_t i = 0; i + t.size() <= s.size(); i++) { bool eq = true; for (size_t j = 0; j < t.size() && eq; j++) eq = low<C>(s[i + j]) == low<C>(t[j]); if (eq) { want = i; break; } }
		Exact ex(t8); std::vector<C> v(s.begin(), s.end()); v.shrink_to_fit(); std::string dd = d + " find " + hex(t8);
		const C *b = v.data(), *p = 0;
		if (v.size()) { p = cybozu::CaseFind(b, b + v.size(), ex.begin(), ex.end()); VF_CHECK(want == std::string::npos ? p == 0 : p == b + want, "casefind-ptr", dd); }
		if (!s.empty()) VF_EQ(cybozu::CaseFind<C>(s, ex.begin(), ex.end()), want, "casefind-str", dd);
		if (t8.find('\0') == std::string::npos && v.size()) { p = cybozu::CaseFind(b, b + v.size(), t8.c_str()); VF_CHECK(want == std::string::npos ? p == 0 : p == b + want, "casefind-z", dd); }
		count(want == std::string::npos ? "find-miss" : "find-hit");
	}
	{ // split: joining the pieces restores the input
		C sep = g.chance(1, 2) ? C(',') : Gen<S>::c(g); size_t mx = g.chance(1, 2) ? 0x7fffffff : 1 + g.below(5);
		std::vector<S> o(2), w; size_t cur = 0; while (w.size() + 1 < mx) { size_t pos = cur; while (pos < s.size() && (C)s[pos] != sep) pos++; if (pos == s.size()) break; w.push_back(S(s, cur, pos - cur)); cur = pos + 1; } w.push_back(S(s, cur));
		bool clear = g.chance(3, 4); std::vector<S> pre(o); size_t n = cybozu::Split(o, s, sep, mx, clear); std::string dd = d + fmt(" sep=%x max=%zu", (int)sep, mx);
		VF_EQ(n, w.size(), "split-count", dd); std::vector<S> want = clear ? std::vector<S>() : pre; want.insert(want.end(), w.begin(), w.end()); VF_CHECK(o == want, "split", dd);
		VF_CHECK(cybozu::Split(s, sep, mx) == w, "split-ret", dd); std::list<S> l; cybozu::Split(l, s, sep, mx); VF_CHECK(std::vector<S>(l.begin(), l.end()) == w, "split-list", dd);
		count("split"); if (w.size() > 1) count("split-many");
	}
	if constexpr (std::is_same<S, Str>::value) distinct(hashStr(s.toUtf8()) ^ 1); else distinct(hashStr(s));
	if (wantSample()) sample(d);
}
VF_PART(bytes, 60000, 2000000) { run<std::string>(rng); }
VF_PART(unicode, 60000, 2000000) { run<Str>(rng); }
// every code point against the White_Space table
VF_PART(space, 0x440, 0x440)
{
	for (Char c = (Char)idx * 1024; c < (Char)(idx + 1) * 1024 && c <= 0x110000; c++) { VF_EQ(cybozu::IsSpace(c), spaceRef(c), "isspace", fmt("U+%X", (unsigned)c)); VF_EQ(cybozu::tolower(c), low<Char>(c), "tolower-cp", fmt("U+%X", (unsigned)c)); VF_EQ(cybozu::toupper(c), upp<Char>(c), "toupper-cp", fmt("U+%X", (unsigned)c)); evals(); }
	if (idx == 0) for (int c = -128; c < 128; c++) { VF_EQ(cybozu::IsSpace((char)c), spaceRef((char)c), "isspace-char", fmt("%d", c)); VF_CHECK(!cybozu::IsSpace((Char)(-c - 200)), "isspace-neg", ""); }
}
VF_LONG(longbytes, bytes, 400, 20000, 60000)
VF_LONG(longunicode, unicode, 400, 20000, 60000)
