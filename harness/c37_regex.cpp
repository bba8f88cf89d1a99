// C37: regex.hpp - searching, matching, replacing and iterating over cybozu::String agree with the underlying engine used directly on plain wide strings.
#include <stdint.h>
#include <string.h>
#include <boost/regex.hpp>
#include "common.hpp"
#include <cybozu/regex.hpp>
using namespace vf;
typedef std::wstring W;
static wchar_t chr(Rng& g) { static const wchar_t C[] = L"abcABC01 _\x3042\x3044\x3046\x30fb\x4e00\U0001f600"; return C[g.below(sizeof(C) / sizeof(C[0]) - 1)]; }
static W pat(Rng& g, int depth, int& groups) { switch (g.below(depth > 0 ? 10 : 4)) { case 0: case 1: return W(1, chr(g)); case 2: return L"."; case 3: { static const wchar_t *const K[] = { L"[a-c]", L"[^a]", L"[\x3042-\x3046]", L"\\d", L"[0-9_]", L"\\w", L"\\s", L"^", L"$", L"\\b", L"[A-Ca-b]" }; return K[g.below(11)]; } case 4: case 5: { W r; for (int i = 1 + g.below(3); i > 0; i--) r += pat(g, depth - 1, groups); return r; } case 6: { groups++; return L"(" + pat(g, depth - 1, groups) + L")"; } case 7: return L"(?:" + pat(g, depth - 1, groups) + L"|" + pat(g, depth - 1, groups) + L")"; default: { static const wchar_t *const Q[] = { L"*", L"+", L"?", L"{1,2}", L"*?", L"+?", L"{2}" }; return L"(?:" + pat(g, 0, groups) + L")" + Q[g.below(7)]; } } }
static W word(Rng& g) { W s; for (int i = g.chance(1, 8) ? 0 : g.below(25); i > 0; i--) s += g.chance(1, 60) ? L'\0' : chr(g); return s; }
static cybozu::String S(const W& w) { return cybozu::String(w.begin(), w.end()); } static W U(const cybozu::String& s) { return W(s.begin(), s.end()); }
static std::string show(const W& w) { std::string r; for (wchar_t c : w) r += c >= 32 && c < 127 ? std::string(1, (char)c) : fmt("\\x%x", (unsigned)c); return r; }
static W rep(Rng& g) { static const wchar_t *const F[] = { L"", L"x", L"<$&>", L"$1", L"[$2-$1]", L"$$", L"\x3042$&", L"$`", L"$'" }; W r; for (int i = 1 + g.below(2); i > 0; i--) { r += F[g.below(9)]; if (g.chance(1, 12)) r += L'\0'; } return r; }
template<class A, class B> static void sameMatch(const A& m, const B& w, const W& s, const std::string& d) { VF_EQ(m.size(), w.size(), "groups", d); for (size_t i = 0; i < w.size() && i < m.size(); i++) { VF_EQ((bool)m[i].matched, (bool)w[i].matched, "matched", d + fmt(" group %zu", i)); VF_CHECK(U(m.str((int)i)) == w.str((int)i), "group-text", d + fmt(" group %zu", i)); VF_EQ((long)m.position((int)i), (long)w.position((int)i), "position", d); VF_EQ((long)m.length((int)i), (long)w.length((int)i), "length", d); } VF_CHECK(U(m.prefix().str()) == w.prefix().str() && U(cybozu::String(m.prefix())) == w.prefix().str(), "prefix", d); VF_CHECK(U(m.suffix().str()) == w.suffix().str(), "suffix", d); (void)s; }
VF_PART(regex, 80000, 1000000)
{
	namespace rc = cybozu::regex_constants; int groups = 0; W p = pat(rng, 4, groups), s = word(rng); bool icase = rng.chance(1, 4); if (rng.chance(1, 40)) p += std::wstring(L"\0a", 2); else if (rng.chance(1, 40)) p += L"("; std::string d = "/" + show(p) + "/ on \"" + show(s) + "\"" + (icase ? " i" : ""); note(d); boost::wregex w; bool bad = false; rc::syntax_option_type f = icase ? rc::ECMAScript | rc::icase : rc::ECMAScript; try { w.assign(p.begin(), p.end(), f); } catch (std::exception&) { bad = true; }
	cybozu::regex r; bool bad2 = false; try { cybozu::String ps = S(p); bool nul = p.find(L'\0') != W::npos; switch (rng.below(nul ? 3 : 5)) { case 0: r = icase ? cybozu::regex(ps, f) : cybozu::regex(ps); break; case 1: r = cybozu::regex(p.c_str(), p.c_str() + p.size(), f); break; case 2: { Exact e(p.size() * sizeof(wchar_t)); memcpy(e.p, p.data(), p.size() * sizeof(wchar_t)); r = cybozu::regex((const cybozu::Char *)e.p, p.size(), f); break; } case 3: r = icase ? cybozu::regex(p.c_str(), f) : cybozu::regex(p.c_str()); break; default: { std::vector<cybozu::Char16> u; for (wchar_t c : p) { if (c > 0xffff) { u.push_back((cybozu::Char16)(0xd7c0 + (c >> 10))); u.push_back((cybozu::Char16)(0xdc00 + (c & 0x3ff))); } else u.push_back((cybozu::Char16)c); } u.push_back(0); r = cybozu::regex(&u[0], f); } } } catch (std::exception&) { bad2 = true; } VF_EQ(bad2, bad, "pattern-accepted", d); if (bad) { count("bad-pattern"); return; } cybozu::regex r2(r); if (rng.chance(1, 2)) r = r2;
	cybozu::String t = S(s); try {
		boost::wsmatch wm; cybozu::smatch m; bool b = boost::regex_search(s, wm, w); VF_EQ(cybozu::regex_search(t, m, r), b, "search", d); if (b) { sameMatch(m, wm, s, d); count("found"); } VF_EQ(cybozu::regex_search(t, r), b, "search-bool", d); size_t from = rng.below(s.size() + 1), to = from + rng.below(s.size() - from + 1); boost::wsmatch wm2; cybozu::smatch m2; bool b2 = boost::regex_search(s.cbegin() + from, s.cbegin() + to, wm2, w, rc::match_continuous); VF_EQ(cybozu::regex_search(t.begin() + from, t.begin() + to, m2, r, rc::match_continuous), b2, "search-flags", d); if (b2) sameMatch(m2, wm2, s, d + " range"); VF_EQ(cybozu::regex_search(t.begin() + from, t.begin() + to, r), boost::regex_search(s.cbegin() + from, s.cbegin() + to, w), "search-range", d);
		boost::wsmatch w3; cybozu::smatch m3; bool b3 = boost::regex_match(s, w3, w); VF_EQ(cybozu::regex_match(t, m3, r), b3, "match", d); if (b3) { sameMatch(m3, w3, s, d + " match"); count("matched"); } VF_EQ(cybozu::regex_match(t, r), b3, "match-bool", d); VF_EQ(cybozu::regex_match(t.begin() + from, t.begin() + to, r), boost::regex_match(s.cbegin() + from, s.cbegin() + to, w), "match-range", d); VF_EQ(cybozu::regex_match(t.begin() + from, t.begin() + to, m3, r), boost::regex_match(s.cbegin() + from, s.cbegin() + to, w3, w), "match-range-m", d);
		W f1 = rep(rng); static const rc::match_flag_type FL[] = { rc::match_default, rc::format_first_only, rc::format_no_copy, rc::format_literal }; rc::match_flag_type fl = FL[rng.below(4)]; W want = boost::regex_replace(s, w, f1, fl); VF_CHECK(U(fl == rc::match_default && rng.chance(1, 2) ? cybozu::regex_replace(t, r, S(f1)) : cybozu::regex_replace(t, r, S(f1), fl)) == want, "replace", d + " with " + show(f1)); W wr; boost::regex_replace(std::back_inserter(wr), s.cbegin() + from, s.cbegin() + to, w, f1, fl); VF_CHECK(U(cybozu::regex_replace(t.begin() + from, t.begin() + to, r, S(f1), fl)) == wr, "replace-range", d); if (want != s) count("replaced");
		{ boost::wsregex_iterator i(s.begin(), s.end(), w), ie; cybozu::sregex_iterator j(t.begin(), t.end(), r), je; size_t n = 0; for (; i != ie && j != je; ++i, ++j, n++) { sameMatch(*j, *i, s, d + fmt(" match %zu", n)); VF_CHECK(U(j->str(0)) == i->str(0), "arrow", d); cybozu::sregex_iterator k(j); VF_CHECK(k == j && U((*k).str()) == i->str(), "iterator-copy", d); } VF_CHECK(i == ie && j == je, "iterator-count", d); count("iterated", n); }
		{ std::vector<int> sub; for (int k = 1 + rng.below(3); k > 0; k--) sub.push_back((int)rng.range(-1, std::min(groups, 3))); int arr[2] = { -1, 0 }; int how = rng.below(4); boost::wsregex_token_iterator i, ie; cybozu::sregex_token_iterator j, je; switch (how) { case 0: i = boost::wsregex_token_iterator(s.begin(), s.end(), w); j = cybozu::sregex_token_iterator(t.begin(), t.end(), r); break; case 1: i = boost::wsregex_token_iterator(s.begin(), s.end(), w, sub[0]); j = cybozu::sregex_token_iterator(t.begin(), t.end(), r, sub[0]); break; case 2: i = boost::wsregex_token_iterator(s.begin(), s.end(), w, sub); j = cybozu::sregex_token_iterator(t.begin(), t.end(), r, sub); break; default: i = boost::wsregex_token_iterator(s.begin(), s.end(), w, arr); j = cybozu::sregex_token_iterator(t.begin(), t.end(), r, arr); } size_t n = 0; while (i != ie && j != je) { VF_CHECK(U((*j).str()) == i->str(), "token", d + fmt(" token %zu", n)); VF_CHECK(U(j->str()) == i->str(), "token-arrow", d); if (rng.chance(1, 2)) { ++i; ++j; } else { cybozu::sregex_token_iterator old = j++; VF_CHECK(U((*old).str()) == i->str(), "token-post-increment", d); i++; } n++; } VF_CHECK(i == ie && j == je, "token-count", d + fmt(" how %d after %zu", how, n)); count("tokens", n); }
		{ static const rc::match_flag_type MF[] = { rc::match_continuous, rc::match_not_null, rc::match_not_bol, rc::match_not_eol, rc::match_not_bow, rc::match_not_eow, rc::match_not_dot_newline, rc::match_prev_avail }; rc::match_flag_type fl2 = MF[rng.below(7)]; if (rng.chance(1, 2)) fl2 |= MF[rng.below(7)]; std::string e = d + fmt(" flags %x", (unsigned)fl2); boost::wsmatch a; cybozu::smatch c; W::const_iterator sb = s.cbegin() + from, se = s.cbegin() + to; cybozu::String::const_iterator tb = t.begin() + from, te = t.begin() + to;
			bool q = boost::regex_search(s, a, w, fl2); VF_EQ(cybozu::regex_search(t, c, r, fl2), q, "f-search", e); if (q) { sameMatch(c, a, s, e); size_t n = a.size(); VF_CHECK(c.str((int)n).empty() && c.str((int)n + 5).empty(), "no-such-group", e); } VF_EQ(cybozu::regex_search(t, r, fl2), q, "f-search-bool", e); q = boost::regex_search(sb, se, a, w, fl2); VF_EQ(cybozu::regex_search(tb, te, r, fl2), q, "f-search-range", e); VF_EQ(cybozu::regex_search(tb, te, c, r, fl2), q, "f-search-range-m", e);
			q = boost::regex_match(s, a, w, fl2); VF_EQ(cybozu::regex_match(t, c, r, fl2), q, "f-match", e); if (q) sameMatch(c, a, s, e); VF_EQ(cybozu::regex_match(t, r, fl2), q, "f-match-bool", e); q = boost::regex_match(sb, se, a, w, fl2); VF_EQ(cybozu::regex_match(tb, te, r, fl2), q, "f-match-range", e); VF_EQ(cybozu::regex_match(tb, te, c, r, fl2), q, "f-match-range-m", e);
			boost::wsregex_iterator i(sb, se, w, fl2), ie; cybozu::sregex_iterator j(tb, te, r, fl2), je; while (i != ie && j != je) { VF_CHECK(U((*j).str()) == i->str() && j->position() == i->position(), "f-iterator", e); ++i; ++j; } VF_CHECK(i == ie && j == je, "f-iterator-count", e);
			for (int how = 0; how < 3; how++) { int arr[2] = { -1, 0 }; std::vector<int> sv(arr, arr + 2); boost::wsregex_token_iterator x, xe; cybozu::sregex_token_iterator y, ye; if (how == 0) { x = boost::wsregex_token_iterator(sb, se, w, -1, fl2); y = cybozu::sregex_token_iterator(tb, te, r, -1, fl2); } else if (how == 1) { x = boost::wsregex_token_iterator(sb, se, w, sv, fl2); y = cybozu::sregex_token_iterator(tb, te, r, sv, fl2); } else { x = boost::wsregex_token_iterator(sb, se, w, arr, fl2); y = cybozu::sregex_token_iterator(tb, te, r, arr, fl2); } while (x != xe && y != ye) { VF_CHECK(U((*y).str()) == x->str(), "f-token", e); ++x; ++y; } VF_CHECK(x == xe && y == ye, "f-token-count", e); } count("flagged"); }
	} catch (std::runtime_error& e) { if (strstr(e.what(), "complexity") == 0 && strstr(e.what(), "memory") == 0) throw; count("too-complex"); }
	distinct(hashStr(d)); evals(); if (wantSample()) sample(d);
}
