// C06: byte streams and the line splitter deliver exactly the bytes, for every chunking.
#include <cybozu/line_stream.hpp>
#include <cybozu/stream.hpp>
#include "common.hpp"
using namespace vf;
// reader with scripted short reads that records every request
struct Chunky {
	const std::string& s; size_t pos; Rng g; int style; size_t reqs, maxReq; char *lo, *hi;
	Chunky(const std::string& s, uint64_t seed) : s(s), pos(0), g(seed), style(g.below(4)), reqs(0), maxReq(0), lo(0), hi(0) {}
	size_t readSome(void *buf, size_t n) {
		reqs++; maxReq = std::max(maxReq, n); size_t r = std::min(n, s.size() - pos); if (r > 1) { if (style == 0) r = 1; else if (style == 1) r = 1 + g.below(r); else if (style == 2) r = 1 + g.below(std::min<size_t>(r, 5)); }
		if (r) memcpy(buf, s.data() + pos, r); pos += r; return r; }
	size_t readSome(char *buf, size_t n) { return readSome((void*)buf, n); }
};
struct LimitSink { std::string s; size_t cap; void write(bool *pb, const void *b, size_t n) { *pb = s.size() + n <= cap; if (*pb) s.append((const char*)b, n); } void write(const void *b, size_t n) { bool x; write(&x, b, n); if (!x) throw cybozu::Exception("sink"); } };

template<class IS> static void readAll(Rng& g, IS& is, const std::string& s, const char *nm)
{
	size_t pos = 0; std::string d = fmt("%s len=%zu ", nm, s.size());
	for (int i = 0; i < 60; i++) {
		size_t n = g.len(90); Exact b(n, 0x5a); int how = g.below(4); note(d + fmt("pos=%zu n=%zu how=%d", pos, n, how));
		if (how == 0) { size_t r = cybozu::readSome(b.p, n, is); VF_CHECK(r <= n && r <= s.size() - pos, "readsome-size", d); VF_CHECK(memcmp(b.p, s.data() + pos, r) == 0, "readsome-data", d); VF_CHECK(!(n > 0 && r == 0) || pos == s.size(), "readsome-zero", d + "returned 0 before the end"); pos += r; if (n && !r) break; }
		else if (how == 1) { char c = 0; bool ok = cybozu::readChar(&c, is); VF_CHECK(ok == (pos < s.size()) && (!ok || c == s[pos]), "readchar", d); if (!ok) break; pos++; }
		else if (how == 2) { bool ok = !(n <= s.size() - pos); cybozu::read(&ok, b.p, n, is); VF_CHECK(ok == (n <= s.size() - pos), "read-flag", d); size_t r = std::min(n, s.size() - pos); VF_CHECK(memcmp(b.p, s.data() + pos, r) == 0, "read-data", d); if (!ok) break; pos += n; }
		else { bool th = false; try { cybozu::read(b.p, n, is); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == (n > s.size() - pos), "read-throw", d); size_t r = std::min(n, s.size() - pos); VF_CHECK(memcmp(b.p, s.data() + pos, r) == 0, "read-data2", d); if (th) break; pos += n; }
		evals();
	}
	count(nm); if (pos == s.size()) count("drained");
}
VF_PART(input, 12000, 500000)
{
	std::string s = rng.bytes(rng.len(400)); distinct(hashStr(s));
	{ Exact e(s); cybozu::MemoryInputStream is(e.p, e.n); readAll(rng, is, s, "memory"); VF_CHECK(is.getPos() <= s.size(), "getpos", ""); }
	{ cybozu::StringInputStream is(s); readAll(rng, is, s, "string"); VF_CHECK(is.getPos() <= s.size(), "getpos", ""); }
	{ std::istringstream is(s); readAll(rng, is, s, "istream"); }
	{ Chunky is(s, rng.next()); readAll(rng, is, s, "shortread"); }
}
template<class OS> static void writeSome(Rng& g, OS& os, std::string& model, size_t cap, const char *nm)
{
	for (int i = 0; i < 20; i++) {
		std::string b = g.bytes(g.len(60)); Exact e(b); int how = g.below(4); size_t room = cap - model.size(); std::string d = fmt("%s have=%zu cap=%zu n=%zu", nm, model.size(), cap, b.size()); note(d);
		if (how == 0) { bool th = false; try { cybozu::write(os, e.p, e.n); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == (b.size() > room), "write-throw", d); if (!th) model += b; }
		else if (how == 1) { bool ok = b.size() > room; cybozu::write(&ok, os, e.p, e.n); VF_CHECK(ok == (b.size() <= room), "write-flag", d); if (ok) model += b; }
		else if (how == 2) { bool th = false; char c = (char)g.next(); try { cybozu::writeChar(os, c); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th == (room == 0), "writechar", d); if (!th) model += c; }
		else { bool ok = room == 0; char c = (char)g.next(); cybozu::writeChar(&ok, os, c); VF_CHECK(ok == (room > 0), "writechar-flag", d); if (ok) model += c; }
		evals();
	}
	count(nm);
}
// the stream classes' own members
VF_PART(members, 10000, 400000)
{
	std::string s = rng.bytes(rng.len(40)); Exact e(s); cybozu::MemoryInputStream mi(e.p, e.n); cybozu::StringInputStream si(s); size_t pos = 0;
	for (int i = 0; i < 12; i++) { size_t n = rng.len(20), w = std::min(n, s.size() - pos); Exact a(n), b(n); VF_CHECK(mi.readSome(a.p, n) == w && si.readSome(b.p, n) == w, "member-readsome", hex(s)); VF_CHECK(!memcmp(a.p, s.data() + pos, w) && !memcmp(b.p, s.data() + pos, w), "member-data", hex(s)); pos += w; VF_CHECK(mi.getPos() == pos && si.getPos() == pos, "member-getpos", hex(s)); evals(2); }
	{ size_t cap = rng.len(60); Exact o(cap); cybozu::MemoryOutputStream mo(o.p, o.n); std::string m, so; cybozu::StringOutputStream sso(so); std::string full;
		for (int i = 0; i < 12; i++) { std::string b = rng.bytes(rng.len(20)); Exact eb(b); bool fits = b.size() <= cap - m.size(), ok = !fits, th = false; std::string d = fmt("cap=%zu have=%zu n=%zu", cap, m.size(), b.size()); note(d);
			if (rng.chance(1, 2)) { mo.write(&ok, eb.p, eb.n); VF_EQ(ok, fits, "member-write-flag", d); } else { try { mo.write(eb.p, eb.n); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, !fits, "member-write-throw", d); }
			if (fits) m += b; VF_EQ(mo.getPos(), m.size(), "member-out-getpos", d); VF_CHECK(!memcmp(o.p, m.data(), m.size()), "member-out-data", d);
			if (rng.chance(1, 2)) { ok = false; sso.write(&ok, eb.p, eb.n); VF_CHECK(ok, "member-str-flag", d); } else sso.write(eb.p, eb.n); full += b; VF_CHECK(so == full && sso.getPos() == full.size(), "member-str", d); evals(2); } }
	{ // absurdly large requests are cut to what is there, or refused
		std::string s2 = rng.bytes(rng.len(40)); Exact e2(s2); cybozu::MemoryInputStream a(e2.p, e2.n); cybozu::StringInputStream b(s2); size_t k = rng.below(s2.size() + 1); { Exact t(k); a.readSome(t.p, k); b.readSome(t.p, k); } const size_t big = (size_t)0 - 1 - rng.below(s2.size() + 2); Exact x(s2.size() - k), y(s2.size() - k); note(fmt("huge request %zx at %zu of %zu", big, k, s2.size()));
		VF_CHECK(a.readSome(x.p, big) == x.n && b.readSome(y.p, big) == y.n && x.str() == s2.substr(k) && y.str() == s2.substr(k), "huge-read", hex(s2)); VF_CHECK(a.getPos() == s2.size() && b.getPos() == s2.size(), "huge-read-pos", hex(s2));
		Exact o(s2.size()); cybozu::MemoryOutputStream mo(o.p, o.n); if (k) mo.write(e2.p, k); bool ok = true, th = false; mo.write(&ok, e2.p, big); VF_CHECK(!ok && mo.getPos() == k, "huge-write", hex(s2)); try { mo.write(e2.p, big); } catch (cybozu::Exception&) { th = true; } VF_CHECK(th && mo.getPos() == k, "huge-write-throw", hex(s2)); evals(4); count("huge requests"); }
	{ // a standard stream stays usable: other reads after the library's ones see the following bytes, and bytes added later are delivered
		std::stringstream ss(s, std::ios::in | std::ios::out | std::ios::app | std::ios::binary); size_t p = 0; std::string all = s;
		for (int i = 0; i < 10; i++) { size_t n = 1 + rng.len(15), w = std::min(n, all.size() - p); Exact b(n); note(fmt("stringstream %zu of %zu", n, all.size() - p)); size_t r = cybozu::readSome(b.p, n, ss); VF_CHECK(r == w, "istream-readsome", fmt("%zu want %zu", r, w)); VF_CHECK(!memcmp(b.p, all.data() + p, w), "istream-data", hex(all)); p += w;
			if (ss.eof()) { ss.clear(); count("istream-eof"); } std::string more = rng.bytes(rng.below(12)); ss.write(more.data(), more.size()); all += more; evals(); } }
	distinct(hashStr(s) ^ 6);
}
VF_PART(output, 10000, 400000)
{
	{ size_t cap = rng.len(300); Exact e(cap); cybozu::MemoryOutputStream os(e.p, e.n); std::string m; writeSome(rng, os, m, cap, "mem-out"); VF_CHECK(os.getPos() == m.size() && memcmp(e.p, m.data(), m.size()) == 0, "mem-content", fmt("%zu", cap)); for (size_t i = m.size(); i < cap; i++) VF_CHECK((uint8_t)e.p[i] == 0xA5, "mem-untouched", fmt("%zu", i)); distinct(hashStr(m)); }
	{ std::string o = rng.bytes(rng.below(4)), m = o; cybozu::StringOutputStream os(o); writeSome(rng, os, m, 1u << 30, "str-out"); VF_CHECK(o == m && os.getPos() == m.size(), "str-content", ""); }
	{ std::ostringstream os; std::string m; writeSome(rng, os, m, 1u << 30, "ostream-out"); VF_CHECK(os.str() == m, "ostream-content", ""); }
	{ LimitSink os; os.cap = rng.len(200); std::string m; writeSome(rng, os, m, os.cap, "user-out"); VF_CHECK(os.s == m, "user-content", ""); }
}
// line splitter vs reference splitter
static std::vector<std::string> refLines(const std::string& s, size_t mx, bool *tooLong)
{
	std::vector<std::string> v; *tooLong = false; size_t i = 0;
	while (i < s.size()) { size_t e = s.find('\n', i); std::string l; if (e == std::string::npos) { l = s.substr(i); i = s.size(); } else { l = s.substr(i, e - i); i = e + 1; if (!l.empty() && l.back() == '\r') l.pop_back(); } if (l.size() > mx) { *tooLong = true; return v; } v.push_back(l); }
	return v;
}
VF_PART(lines, 60000, 2000000)
{
	size_t mx = rng.chance(1, 4) ? 2048 : 1 + rng.below(24); std::string s; size_t n = rng.len(30);
	for (size_t i = 0; i < n; i++) { size_t l = rng.chance(1, 3) ? (size_t)std::max<int64_t>(0, (int64_t)std::min<size_t>(mx, 40) + rng.range(-3, rng.chance(1, 8) ? 3 : 0)) : rng.below(std::min<size_t>(mx, 30) + 1); s += rng.chance(1, 6) ? rng.bytes(l) : rng.from("ab\r\0x", l); if (rng.chance(1, 10)) s += '\0'; s += rng.chance(1, 2) ? "\n" : "\r\n"; }
	if (mx == 2048 && rng.chance(1, 4)) s.insert(rng.chance(1, 2) ? 0 : s.size(), rng.from("ab\r", 2040 + rng.below(14)) + (rng.chance(1, 2) ? "\n" : "\r\n"));
	if (rng.chance(1, 2)) s += rng.from("abc\r", rng.chance(1, 3) ? std::min<size_t>(mx * 2 + 1, mx - 1 + rng.below(mx + 4)) : rng.below(std::min<size_t>(mx, 30) + 2));
	bool tooLong; std::vector<std::string> want = refLines(s, mx, &tooLong); std::string d = fmt("max=%zu ", mx) + hex(s, 160); note(d);
	Chunky rd(s, rng.next()); bool dflt = mx == 2048 && rng.chance(1, 2); cybozu::LineStreamT<Chunky> lsA(rd, mx), lsB(rd); cybozu::LineStreamT<Chunky>& ls = dflt ? lsB : lsA; size_t consumed = 0; bool byPtr = rng.chance(1, 3);
	for (size_t i = 0;; i++) {
		std::string l = "old"; bool ok = false, th = false;
		try { if (byPtr) { const char *b = 0, *e = 0; ok = ls.next(&b, &e); if (ok) l.assign(b, e); } else ok = ls.next(l); } catch (cybozu::Exception&) { th = true; }
		if (i == want.size()) { if (!tooLong) { std::string rm = "before"; ls.getRemain(rm); VF_CHECK(rm.empty() && ls.getRemain().empty(), "remain-at-end", d); VF_CHECK(!ls.next(l), "line-after-end", d); } if (tooLong) VF_CHECK(th, "line-toolong", d); else VF_CHECK(!ok && !th, "line-extra", d); break; }
		VF_CHECK(ok && !th, "line-missing", d + fmt(" line %zu", i)); VF_CHECK(l == want[i], "line-content", d + fmt(" line %zu got=", i) + hex(l));
		// bytes handed out plus bytes still buffered are exactly the bytes read so far
		size_t e = s.find('\n', consumed); consumed = e == std::string::npos ? s.size() : e + 1; VF_CHECK(ls.getRemain() == s.substr(consumed, rd.pos - consumed), "line-remain", d + fmt(" after line %zu", i)); evals();
	}
	count(tooLong ? "too-long" : "split"); count("lines", want.size()); distinct(hashStr(s) + mx); if (wantSample()) sample(d);
}
VF_LONG(longinput, input, 200, 6000, 300000)
VF_LONG(longmembers, members, 200, 6000, 300000)
VF_LONG(longoutput, output, 200, 6000, 300000)
VF_LONG(longlines, lines, 300, 9000, 300000)
