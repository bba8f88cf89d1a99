// C09: config files.
#include <cybozu/config.hpp>
#include "common.hpp"
using namespace vf;
typedef std::map<std::string, std::map<std::string, std::string>> M;
static const char nameCh[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
static bool okName(const std::string& s) { for (char c : s) if (!c || !strchr(nameCh, c)) return false; return true; }
// model of the documented grammar
static bool model(const std::string& t, M *m)
{
	m->clear(); (*m)[""]; std::string sec; size_t i = 0;
	while (i < t.size()) {
		size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? t.size() : e + 1;
		if (!l.empty() && l.back() == '\r') l.pop_back(); if (l.empty() || l[0] == ';' || l[0] == '#') continue;
		if (l[0] == '[') { if (l.size() < 2 || l.back() != ']') return false; sec = l.substr(1, l.size() - 2); if (!okName(sec)) return false; (*m)[sec]; continue; }
		size_t q = l.find('='); if (q == std::string::npos) return false; std::string k = l.substr(0, q); while (!k.empty() && (k.back() == ' ' || k.back() == '\t')) k.pop_back(); if (!okName(k)) return false; if (!(*m)[sec].insert(std::make_pair(k, l.substr(q + 1))).second) return false;
	}
	return true;
}
static void same(const cybozu::Config& c, const M& m, const char *key, const std::string& d)
{
	VF_EQ(c.getMap().size(), m.size(), key, d);
	for (auto& s : m) {
		const cybozu::Config::Section *p = c.querySection(s.first); VF_CHECK(p, key, d + " section " + s.first); VF_CHECK(p->getMap() == s.second, key, d + " section " + s.first); VF_CHECK(&c.getSection(s.first) == p, key, d);
		for (auto& kv : s.second) { const std::string *v = p->queryValue(kv.first); VF_CHECK(v && *v == kv.second, key, d + " key " + kv.first); const std::string& w = p->getValue(kv.first); VF_CHECK(w == kv.second, key, d); VF_CHECK(p->getValue(kv.first, std::string("dflt")) == kv.second, key, d); count("values"); }
		VF_CHECK(!p->queryValue("no_such_key__"), key, d); VF_CHECK(p->getValue("no_such_key__", std::string("dflt")) == "dflt", key, d); VF_CHECK(throws<cybozu::Exception>([&] { std::string s = (const std::string&)p->getValue("no_such_key__"); }), key, d);
	}
	VF_CHECK(!c.querySection("no_such_section__") && throws<cybozu::Exception>([&] { c.getSection("no_such_section__"); }), key, d);
}
static std::string nm(Rng& g) { if (g.chance(1, 5)) return g.from("ab_", 1); return g.from(nameCh, 1 + (g.chance(1, g.budget ? 6 : 50) ? g.upto(20) : g.below(g.chance(1, 2) ? 2 : 9))); }
VF_PART(load, 40000, 1200000)
{
	std::string t; size_t n = rng.len(25); bool mess = rng.chance(1, 3);
	for (size_t i = 0; i < n; i++) {
		std::string eol = rng.chance(1, 2) ? "\n" : "\r\n";
		switch (rng.below(mess && rng.chance(1, 4) ? 12 : 7)) {
		case 0: t += "[" + nm(rng) + "]" + eol; break; case 1: t += (rng.chance(1, 2) ? ";" : "#") + rng.from("ab=[];#", rng.below(6)) + eol; break; case 2: t += eol; break;
		case 3: case 4: case 5: case 6: t += nm(rng) + rng.from(" \t", rng.below(3)) + "=" + (rng.chance(1, 6) ? std::string() : rng.chance(1, 5) ? rng.from(std::string("ab =;#[]\t\"\x80\xff\0", 13), rng.chance(1, 20) ? rng.upto(20) : rng.below(20)) : fmt("%lld", (long long)rng.edgy64())) + eol; break;
		case 7: t += rng.from("ab=[] \t;#_$\r", rng.below(10)) + eol; break; case 8: t += "[" + rng.from("ab c]", rng.below(4)) + eol; break; case 9: t += " " + nm(rng) + "=1" + eol; break; case 10: t += nm(rng) + eol; break; case 11: t += rng.bytes(rng.below(12)) + eol; break;
		}
	}
	if (rng.chance(1, 4) && !t.empty()) t.resize(t.size() - 1);
	M m; bool ok = model(t, &m); std::string d = hex(t, 400); note(d); std::istringstream is(t); cybozu::Config c; bool th = false; try { c.load(is); } catch (cybozu::Exception&) { th = true; }
	VF_CHECK(th == !ok, "accept", d + (th ? " rejected" : " accepted")); distinct(hashStr(t)); if (wantSample()) sample(d); count(ok ? "accepted" : "rejected"); if (!ok) return;
	same(c, m, "content", d);
	bool rt = true; for (auto& s : m) for (auto& kv : s.second) if (!kv.second.empty() && kv.second.back() == '\r') rt = false;
	if (rt) { cybozu::Config c2; std::istringstream is2(c.toString()); c2.load(is2); same(c2, m, "reload", d); VF_CHECK(c2.toString() == c.toString(), "reload-text", d); count("reloaded"); }
}
// typed access is exact and never wraps
template<class T> static void typed(const cybozu::Config::Section& s, const std::string& k, const std::string& v)
{
	__int128 x = 0; bool ok = !v.empty(); size_t i = 0; bool neg = false; if (std::numeric_limits<T>::is_signed && ok && v[0] == '-') { neg = true; i = 1; ok = v.size() > 1; }
	for (; ok && i < v.size(); i++) { if (v[i] < '0' || v[i] > '9') ok = false; else { x = x * 10 + (v[i] - '0'); if (x > ((__int128)1 << 70)) x = (__int128)1 << 70; } } if (neg) x = -x; if (ok && (x < (__int128)std::numeric_limits<T>::min() || x > (__int128)std::numeric_limits<T>::max())) ok = false;
	bool t1 = false, t2 = false; T a = 0, b = 0; try { a = (T)s.getValue(k).operator T(); } catch (cybozu::Exception&) { t1 = true; } try { b = s.getValue(k, (T)7); } catch (cybozu::Exception&) { t2 = true; }
	std::string d = fmt("%zu-byte value \"%s\"", sizeof(T), hex(v).c_str()); VF_CHECK(t1 == !ok && (!ok || a == (T)x), "typed", d); VF_CHECK(t2 == !ok && (!ok || b == (T)x), "typed-default", d); VF_CHECK(s.getValue("zz9", (T)7) == (T)7, "default", d); count(ok ? "int-ok" : "int-bad");
}
VF_PART(typed, 30000, 900000)
{
	uint64_t r = rng.edgy64(); std::string v = rng.chance(1, 2) ? fmt("%lld", (long long)r) : fmt("%llu", (unsigned long long)r); if (rng.chance(1, 4)) { static const char *e[] = {"-32768", "-32769", "32768", "65536", "-2147483648", "-2147483649", "4294967296", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "", "-", "+1", " 1", "1 ", "0x1", "-327680", "-21474836480"}; v = e[rng.below(18)]; } if (rng.chance(1, 6)) v += rng.pickc("0 9a-"); if (rng.chance(1, 8)) v.insert(v.size() && v[0] == '-' ? 1 : 0, rng.below(5), '0');
	note(hex(v)); cybozu::Config c; cybozu::Config::Section *s = c.appendSection("s"); s->append("k", v); typed<short>(*s, "k", v); typed<unsigned short>(*s, "k", v); typed<int>(*s, "k", v); typed<unsigned int>(*s, "k", v); typed<int64_t>(*s, "k", v); typed<uint64_t>(*s, "k", v); distinct(hashStr(v)); evals(6);
}
VF_PART(build, 8000, 300000)
{
	cybozu::Config c; M m; int n = 1 + (int)rng.upto(20); const bool many = n > 20;
	for (int i = 0; i < n; i++) {
		std::string s = rng.chance(1, 8) ? rng.from("ab$ ]", 1 + rng.below(3)) : many && rng.chance(1, 2) ? rng.from(nameCh, 1 + rng.below(6)) : rng.from("ab", rng.below(3)), k = rng.chance(1, 8) ? rng.from("ab= ;", 1 + rng.below(3)) : rng.from("abc_9", 1 + rng.below(2)), v = rng.from("xyz =;", rng.below(6)); std::string d = "s=" + s + " k=" + k;
		bool okS = okName(s), th = false; cybozu::Config::Section *p = 0; try { p = c.appendSection(s); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, !okS, "append-section", d); if (th) continue; m[s]; VF_CHECK(p == c.querySection(s), "append-section", d);
		bool okK = okName(k) && !m[s].count(k); th = false; try { p->append(k, v); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, !okK, "append-key", d); if (okK) m[s][k] = v;
		if (rng.chance(1, 10)) { std::string s2 = rng.from("cd", 1); cybozu::Config::Section copy = *p; c.appendSection(s2, copy); m[s2] = m[s]; }
	}
	same(c, m, "built", "built"); distinct(hashStr(c.toString())); std::istringstream is(c.toString()); cybozu::Config c2; c2.load(is); m[""]; same(c2, m, "built-reload", hex(c.toString())); count("built");
}
VF_PART(file, 200, 2000)
{
	std::string name = st().scratch + "/c.ini", t = "a=1\r\n[x]\nb=two\n"; { FILE *fp = fopen(name.c_str(), "wb"); fwrite(t.data(), 1, t.size(), fp); fclose(fp); } cybozu::Config c(name); VF_CHECK((int)c.getSection().getValue("a") == 1 && *c.getSection("x").queryValue("b") == "two", "file", ""); unlink(name.c_str()); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::Config c(name); }), "file-missing", "");
}
VF_LONG(longload, load, 400, 15000, 20000)
VF_LONG(longbuild, build, 120, 4000, 20000)
