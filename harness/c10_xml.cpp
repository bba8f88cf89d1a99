// C10: mini XML parser.
#include <string.h>
#include <stdio.h>
#include <cybozu/minixml.hpp>
#include "common.hpp"
using namespace vf;
namespace X = cybozu::minixml;
struct T { std::string name, text; std::map<std::string, std::string> at; std::vector<T> ch; };
static std::string sp(Rng& g, int mn) { return g.from(" \t\r\n", mn + g.below(3)); }
static T gen(Rng& g, int depth)
{
	T t; t.name = g.from("abcXYZ_:.0-", 1 + g.upto(4)); size_t n = std::min<size_t>(g.upto(4), 400); for (size_t i = 0; i < n; i++) { std::string v = g.from("ab <>&;=/?'\x81\xff" "1", g.upto(8)); t.at[g.from("pqr_:1", 1 + (g.budget ? g.below(7) : g.below(3)))] = v; }
	if (depth > 0) { n = g.upto(4); for (size_t i = 0; i < n; i++) t.ch.push_back(gen(g, depth - 1)); }
	if (g.chance(1, 2)) t.text = g.from("xyz&;\"'=>/?", 1) + g.from("xyz &;\"'=>/?\n\t\xe3", g.upto(10)); return t;
}
static std::string emit(Rng& g, const T& t)
{
	std::string o = "<" + t.name; for (auto& a : t.at) { char q = a.second.find('\'') != std::string::npos ? '"' : g.chance(1, 2) ? '"' : '\''; o += sp(g, 1) + a.first + sp(g, 0) + "=" + sp(g, 0) + q + a.second + q; }
	if (t.ch.empty() && t.text.empty() && g.chance(1, 2)) return o + (g.chance(1, 2) ? " />" : "/>"); // empty element forms
	o += (t.at.empty() ? "" : sp(g, 0)) + ">"; size_t at = g.below(t.ch.size() + 1); for (size_t i = 0; i <= t.ch.size(); i++) { if (i == at && !t.text.empty()) o += sp(g, 0) + t.text; else o += sp(g, 0); if (i < t.ch.size()) o += emit(g, t.ch[i]); } return o + "</" + t.name + ">";
}
static void cmp(const X::Node& n, const T& t, const X::Node *parent, const std::string& d, const char *key)
{
	VF_CHECK(n.name == t.name, std::string(key) + "-name", d + " got=" + hex(n.name) + " want=" + t.name); VF_CHECK(n.content == t.text, std::string(key) + "-text", d + " got=" + hex(n.content) + " want=" + hex(t.text)); VF_CHECK(n.parent == parent, std::string(key) + "-parent", d);
	for (auto& a : t.at) { const std::string *p = n.attr.query(a.first); VF_CHECK(p && *p == a.second, std::string(key) + "-attr", d + " attr " + a.first); VF_CHECK(n.attr[a.first] == a.second, std::string(key) + "-attr", d); } VF_CHECK(!n.attr.query("nosuch!"), std::string(key) + "-noattr", d); if (n.attr.query("nosuch!") || (parent ? 0 : 1)) VF_CHECK(throws<cybozu::Exception>([&] { (void)n.attr["nosuch!"]; }), std::string(key) + "-noattr", d);
	std::ostringstream os; os << n.attr; size_t want = 0; for (auto& a : t.at) want += a.first.size() + a.second.size() + 4; VF_EQ(os.str().size(), want, std::string(key) + "-attrcount", d);
	VF_EQ(n.child.size(), t.ch.size(), std::string(key) + "-children", d); auto i = n.child.begin(); for (auto& c : t.ch) cmp(**i++, c, &n, d, key); count("nodes");
}
static const T *first(const T& t, const std::string& nm) { if (t.name == nm) return &t; for (auto& c : t.ch) { const T *p = first(c, nm); if (p) return p; } return 0; }
static std::string header(Rng& g) { return sp(g, 0) + "<?xml" + sp(g, 1) + "version=\"1.0\"" + (g.chance(1, 2) ? sp(g, 1) + "encoding='UTF-8'" : "") + sp(g, 0) + "?>" + sp(g, 0); }
VF_PART(tree, 20000, 700000)
{
	T t = gen(rng, 1 + rng.below(4)); std::string s = header(rng) + emit(rng, t), d = hex(s, 500); note(d); Exact e(s); cybozu::MiniXml x(e.begin(), e.end()); cmp(x.get(), t, 0, d, "parse");
	{ std::string nm = rng.from("abc", 1); const X::Node *p = x.get().getFirstTagByName(nm); const T *w = first(t, nm); VF_CHECK(!p == !w, "find", d); if (p) { VF_CHECK(p->name == nm && p->content == w->text && p->child.size() == w->ch.size(), "find", d); count("found"); } }
	// printing the tree and parsing it again gives the same tree; a parser object can be reused
	std::ostringstream os; os << x; std::string o = os.str(); cybozu::MiniXml y; for (int k = 0; k < 2; k++) { y.parse(o.data(), o.data() + o.size()); cmp(y.get(), t, 0, hex(o, 400), "reprint"); }
	typedef X::InputStream<std::string::const_iterator> IS; IS is(s.begin(), s.end()); cybozu::MiniXml z; z.parse(is); cmp(z.get(), t, 0, d, "iter"); count("docs"); distinct(hashStr(s)); if (wantSample()) sample(d);
	// a document cut short before its last '>' is never accepted
	size_t cut = rng.chance(1, 4) ? s.rfind('>') : rng.below(s.rfind('>')); Exact c(s.substr(0, cut)); bool th = false; try { cybozu::MiniXml w(c.begin(), c.end()); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th, "truncated", d + fmt(" cut at %zu", cut)); count("truncated");
	// mismatched end tag
	if (!t.ch.empty() || !t.text.empty()) { std::string b = s; b.insert(b.size() - 1, "q"); Exact eb(b); bool t2 = false; try { cybozu::MiniXml w(eb.begin(), eb.end()); } catch (cybozu::Exception&) { t2 = true; } VF_CHECK(t2, "mismatch", hex(b, 300)); }
}
VF_PART(hostile, 60000, 2000000)
{
	std::string s = rng.chance(1, 8) ? "" : header(rng); if (rng.chance(1, 2)) { s += emit(rng, gen(rng, 2)); int k = 1 + rng.below(4); while (k-- && !s.empty()) { size_t p = rng.below(s.size()); switch (rng.below(3)) { case 0: s.erase(p, 1 + rng.below(3)); break; case 1: s.insert(p, 1, rng.pickc("<>/=\"' ?&a")); break; default: s[p] = rng.chance(1, 2) ? rng.pickc("<>/=\"' ?&") : (char)rng.next(); } } } else { size_t n = rng.len(60); for (size_t i = 0; i < n; i++) s += rng.chance(1, 10) ? (char)rng.next() : rng.pickc("<>/=\"' ?&ab\n"); }
	note(hex(s, 500)); Exact e(s); try { cybozu::MiniXml x(e.begin(), e.end()); std::ostringstream os; os << x; count("hostile-accepted"); } catch (cybozu::Exception&) { count("hostile-rejected"); } try { cybozu::MiniXml y; y.parse(e.begin(), e.end()); } catch (cybozu::Exception&) {} distinct(hashStr(s));
}
VF_PART(escape, 40000, 1000000)
{
	std::string s = rng.chance(1, 2) ? rng.bytes(rng.len(80)) : rng.from("&<>'\"a;ltgampquo", rng.len(80)), w; for (char c : s) w += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '\'' ? "&apos;" : c == '"' ? "&quot;" : std::string(1, c);
	std::string o = X::escape(s); VF_CHECK(o == w, "escape", hex(s)); VF_CHECK(o.find_first_of("<>'\"") == std::string::npos, "escape-special", hex(o)); VF_CHECK(X::unescape(o) == s, "unescape", hex(s)); distinct(hashStr(s));
	// unescape of arbitrary text: known entities only
	std::string t; size_t n = rng.below(12); static const char *ent[] = {"&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "a", "&", "&am", "amp;", "&lt", ";", "&quo;", "&AMP;", "&apos", "&quot"}; for (size_t i = 0; i < n; i++) t += ent[rng.below(rng.chance(3, 4) ? 6 : 15)];
	std::string want; bool ok = true; for (size_t i = 0; i < t.size() && ok;) { if (t[i] != '&') { want += t[i++]; continue; } ok = false; static const char rep[] = "&<>'\""; for (int k = 0; k < 5; k++) { size_t l = strlen(ent[k]); if (t.compare(i, l, ent[k]) == 0) { want += rep[k]; i += l; ok = true; break; } } }
	std::string got; bool th = false; try { got = X::unescape(t); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == !ok && (th || got == want), "unescape-any", hex(t)); count(ok ? "ent-ok" : "ent-bad");
}
// one malformation put into an otherwise good document: never accepted
VF_PART(reject, 20000, 400000)
{
	T t = gen(rng, 1 + rng.below(3)); std::string h = header(rng), body = emit(rng, t), s; int kind = rng.below(9); std::string nm = rng.from("abcXYZ", 2 + rng.below(4)), bad = nm;
	auto wrap = [&](const std::string& open, const std::string& close) { s = h + open + (rng.chance(1, 2) ? body : rng.from("xyz", rng.below(4))) + close; if (rng.chance(1, 2)) s = h + "<r>" + s.substr(h.size()) + "</r>"; };
	switch (kind) {
	case 0: switch (rng.below(5)) { case 0: bad.resize(bad.size() - 1); break; case 1: bad += rng.pickc("abc_"); break; case 2: bad[rng.below(bad.size())] ^= 0x20; break; case 3: bad = bad.substr(1); break; default: bad[bad.size() - 1] = '9'; } wrap("<" + nm + ">", "</" + bad + ">"); break; // end tag of another name
	case 1: wrap("<" + nm + ">", "</" + nm + rng.pickc("=\"'/") + ">"); break; // end tag with something else before '>'
	case 2: wrap("<" + nm + " =\"v\">", "</" + nm + ">"); break; // attribute without a name
	case 3: wrap("<" + nm + rng.pickc(" \n") + "k" + (rng.chance(1, 2) ? "" : " ") + (rng.chance(1, 2) ? "v" : "=v") + ">", "</" + nm + ">"); break; // value without quotes or '='
	case 4: s = h + "</" + nm + ">" + (rng.chance(1, 2) ? body : ""); break; // begins with an end tag
	case 5: s = "<?xml" + std::string(1, rng.pickc("l2-x")) + h.substr(h.find("<?xml") + 5) + body; break; // another declaration
	case 6: s = (rng.chance(1, 2) ? body : "<?xm" + h.substr(h.find("<?xml") + 5) + body); break; // no declaration
	case 7: wrap("<" + nm + rng.pickc(" \t") + "k='v\">", "</" + nm + ">"); if (s.find('\'', s.find("k='") + 3) != std::string::npos) s = h + "<a k='v\"></a>"; break; // value closed by the other quote
	default: wrap("<" + nm + "/" + rng.pickc("a /=") + ">", "</" + nm + ">"); break; // '/' not followed by '>'
	}
	std::string d = fmt("kind %d ", kind) + hex(s, 400); note(d); Exact e(s); bool th = false; try { cybozu::MiniXml x(e.begin(), e.end()); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th, fmt("accepted-malformed-%d", kind), d); count("malformed-rejected"); distinct(hashStr(s));
	// the object that refused it is still usable
	cybozu::MiniXml y; try { y.parse(e.begin(), e.end()); } catch (cybozu::Exception&) {} std::string g = h + body; y.parse(g.data(), g.data() + g.size()); cmp(y.get(), t, 0, d, "after-reject");
}
VF_PART(deep, 32, 96)
{
	size_t depth = idx < 16 ? 50 + idx * 15 : 20000 + rng.below(150000), ends = rng.chance(1, 3) ? rng.below(depth) : depth; std::string s = "<?xml version=\"1.0\"?>"; for (size_t i = 0; i < depth; i++) s += "<d>"; for (size_t i = 0; i < ends; i++) s += "</d>"; std::string d = fmt("depth %zu, %zu end tags", depth, ends); note(d); bool th = false;
	try { cybozu::MiniXml x(s.data(), s.data() + s.size()); size_t n = 0; const X::Node *p = &x.get(); while (p) { n++; VF_CHECK(p->child.size() <= 1 && p->name == "d", "deep", d); p = p->child.empty() ? 0 : p->child.front(); } VF_EQ(n, depth, "deep", d); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, ends != depth, "deep-verdict", d); count("deep"); distinct(hashStr(s));
}
VF_LONG(longtree, tree, 160, 4000, 6000)
VF_LONG(longhostile, hostile, 160, 4000, 10000)
VF_LONG(longescape, escape, 200, 6000, 200000)
