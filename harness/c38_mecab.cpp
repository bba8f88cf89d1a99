// C38: nlp/mecab.hpp - the words found cover the text exactly; only the given length counts (libmecab itself wants a terminator).
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>
#include "common.hpp"
#include <cybozu/nlp/mecab.hpp>
using namespace vf;
static std::string utf8(unsigned c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
static std::string gen(Rng& g) { static const char *const W[] = { "太郎", "は", "私", "と", "次郎", "が", "持っ", "て", "いる", "本", "を", "花子", "に", "渡し", "た", "東京", "すもも", "もも", "の", "うち", "cybozu", "2026", "。", "、" }; std::string s; for (int n = g.below(15); n > 0; n--) { switch (g.below(6)) { case 0: s += utf8(0x3041 + g.below(80)); break; case 1: s += utf8(0x4e00 + g.below(2000)); break; case 2: s += (char)(33 + g.below(94)); break; case 3: if (g.chance(1, 3)) s += ' '; else if (g.chance(1, 12)) { char c = (char)(g.chance(1, 2) ? 'a' : '0'); for (int k = 30 + g.below(200); k > 0; k--) s += (char)(c + g.below(10)); } else if (g.chance(1, 12)) for (int k = 20 + g.below(30); k > 0; k--) s += utf8(0x30a1 + g.below(80)); break; default: s += W[g.below(24)]; } } return s; }
static cybozu::nlp::Mecab& tagger() { static cybozu::nlp::Mecab m; return m; }
VF_PART(words, 12000, 200000)
{
	cybozu::nlp::Mecab& m = tagger(); std::string s = gen(rng), d = "\"" + s + "\""; note(d); bool exact = rng.chance(1, 2) && !s.empty(); std::string junk = exact ? gen(rng) : ""; Exact e(s.size() + junk.size() + 1); memcpy(e.p, (s + junk).c_str(), s.size() + junk.size() + 1); const char *p = (const char *)e.p; int how = rng.below(2); if (exact) m.set(p, s.size()); else if (how == 0) m.set(p); else m.set(s); const char *base = exact || how == 0 ? p : s.data();
	std::vector<std::string> nodes; std::string joined; size_t pos = 0; for (int guard = 0; !m.isEnd() && guard < 10000; guard++) { size_t n = m.getSize(); if (n) { size_t off = m.getPos() - base; VF_CHECK(m.getPos() >= base && off >= pos && off + n <= s.size(), "surface-inside", d + fmt(" offset %zu size %zu", off, n)); for (size_t i = pos; i < off; i++) VF_CHECK(s[i] == ' ', "text-skipped", d + fmt(" at %zu", i)); std::string w(m.getPos(), n); VF_EQ(s.substr(off, n), w, "surface", d); nodes.push_back(w); pos = off + n; bool noun = m.isNoun(); count(noun ? "nouns" : "others"); } m.next(); } for (size_t i = pos; i < s.size(); i++) VF_CHECK(s[i] == ' ', "tail-skipped", d);
	std::vector<std::string> v(1, "first"); bool ok = exact ? m.parse(v, p, s.size()) : m.parse(v, p); VF_CHECK(ok && v.size() >= 1 && v[0] == "first", "parse", d); v.erase(v.begin()); VF_EQ(v.size(), nodes.size(), "parse-count", d); for (size_t i = 0; i < v.size() && i < nodes.size(); i++) VF_EQ(v[i], nodes[i], "parse-word", d + fmt(" word %zu", i)); count("words", v.size()); distinct(hashStr(s)); evals(); if (wantSample()) sample(d);
	if (idx % 20 == 0) { static const std::string noun = "花子", verb = "渡し"; m.set("花子に渡した"); bool n1 = false, n2 = false; while (!m.isEnd()) { std::string w(m.getPos(), m.getSize()); if (w == noun) n1 = m.isNoun(); if (w == verb) n2 = m.isNoun(); m.next(); } VF_CHECK(n1 && !n2, "noun", ""); VF_CHECK(throws<cybozu::Exception>([] { cybozu::nlp::Mecab bad("-d /no/such/dictionary"); }), "bad-dictionary", ""); count("bad-dictionary"); }
	if (idx % 100 == 1) { cybozu::nlp::Mecab own; std::vector<std::string> a, b; own.parse(a, s.c_str()); m.parse(b, s.c_str()); VF_CHECK(a == b, "second-tagger", d); count("taggers"); }
}
