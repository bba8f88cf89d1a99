// C08: CSV reader/writer.
#include <cybozu/csv.hpp>
#include <list>
#include <deque>
#include "common.hpp"
using namespace vf;
typedef std::vector<std::string> Row;
struct Chunky { const std::string& s; size_t pos; Rng g; int style; Chunky(const std::string& s, uint64_t seed) : s(s), pos(0), g(seed), style(g.below(4)) {} size_t readSome(void *buf, size_t n) { size_t r = std::min(n, s.size() - pos); if (r > 1) { if (style == 0) r = 1; else if (style == 1) r = 1 + g.below(r); } if (r) memcpy(buf, s.data() + pos, r); pos += r; return r; } };
static std::string noCR(std::string s) { s.erase(std::remove(s.begin(), s.end(), '\r'), s.end()); return s; }
static std::string show(const Row& r) { std::string o; for (auto& f : r) o += "[" + hex(f, 40) + "]"; return o; }
static const char seps[] = ",\t; ";
static std::string field(Rng& g, char sep) { size_t n = g.len(40); std::string s; for (size_t i = 0; i < n; i++) { switch (g.below(9)) { case 0: s += '"'; break; case 1: s += sep; break; case 2: s += '\n'; break; case 3: s += '\r'; break; case 4: s += (char)g.next(); break; case 5: s += "\xe3\x81\x82"; break; default: s += g.pickc("abc 1,;"); } } return s; }
template<class C> static C conv(const Row& r) { return C(r.begin(), r.end()); }

VF_PART(roundtrip, 20000, 700000)
{
	char sep = seps[rng.below(4)]; std::vector<Row> rows(std::min<size_t>(rng.len(12), 20000)); std::string o; cybozu::StringOutputStream os(o); cybozu::CsvWriterT<cybozu::StringOutputStream> w(os, sep);
	for (auto& r : rows) { r.resize(std::min<size_t>(rng.len(10), 20000)); for (auto& f : r) f = field(rng, sep); if (rng.chance(1, 2)) w.write(r.begin(), r.end()); else { std::list<std::string> l(r.begin(), r.end()); w.write(l.begin(), l.end()); } }
	// what is written is RFC 4180: quoted fields, doubled quotes, CRLF rows
	std::string want; for (auto& r : rows) { for (size_t i = 0; i < r.size(); i++) { if (i) want += sep; want += '"'; for (char c : r[i]) { if (c == '"') want += '"'; want += c; } want += '"'; } want += "\r\n"; }
	VF_CHECK(o == want, "write", hex(o)); if (!o.empty() && rng.chance(1, 3) && rows.back().size()) o.resize(o.size() - 2); // last newline is optional
	Chunky is(o, rng.next()); cybozu::CsvReaderT<Chunky> rd(is, sep); note(hex(o)); size_t big = 0;
	for (size_t i = 0; i < rows.size(); i++) {
		Row want = rows[i]; for (auto& f : want) f = noCR(f); Row got(3, "junk"); bool ok; if (rng.chance(1, 4)) { std::deque<std::string> q(2); ok = rd.read(q); got.assign(q.begin(), q.end()); } else ok = rd.read(got);
		VF_CHECK(ok, "row-missing", fmt("row %zu of %zu: ", i, rows.size()) + hex(o)); VF_CHECK(got == want, "row-content", fmt("row %zu ", i) + show(got) + " want " + show(want)); evals(); big += want.size();
	}
	Row e(1, "x"); for (int k = 0; k < 2; k++) VF_CHECK(!rd.read(e), "row-extra", hex(o) + " extra " + show(e)); count("rows", rows.size()); count("fields", big); distinct(hashStr(o)); if (wantSample()) sample(hex(o, 150));
}
// model of the accepted dialect for arbitrary text: CR ignored, quoted or bare fields, a separator ends a field, nothing after the last separator adds no field
struct Model { const std::string s; size_t i = 0; char sep; Model(const std::string& t, char c) : s(noCR(t)), sep(c) {}
	// 0 row, 1 end, 2 error
	int next(Row *out) { out->clear(); if (i >= s.size()) return 1;
		for (;;) {
			if (i >= s.size()) return 0; if (s[i] == '\n') { i++; return 0; } std::string f;
			if (s[i] == '"') { i++; for (;;) { if (i >= s.size()) return 2; if (s[i] != '"') { f += s[i++]; continue; } if (i + 1 < s.size() && s[i + 1] == '"') { f += '"'; i += 2; continue; } i++; break; } if (i < s.size() && s[i] != sep && s[i] != '\n') return 2; }
			else while (i < s.size() && s[i] != sep && s[i] != '\n') f += s[i++];
			out->push_back(f); if (i < s.size() && s[i] == sep) i++;
		} } };
VF_PART(dialect, 60000, 2000000)
{
	char sep = seps[rng.below(4)]; std::string t; size_t n = rng.len(60); const bool tame = rng.budget && rng.chance(2, 3); for (size_t k = 0; k < n; k++) switch (tame ? "\0\4\4\5\7\10\11"[rng.below(7)] : (int)rng.below(10)) { case 0: case 1: t += sep; break; case 2: case 3: t += '"'; break; case 4: t += '\n'; break; case 5: t += '\r'; break; case 6: t += (char)rng.next(); break; case 7: { t += '"'; t += rng.from("ab\n ,;", rng.below(4)); t += '"'; if (tame || rng.chance(3, 4)) t += sep; break; } default: if (tame && !t.empty() && t.back() == '"') break; t += rng.pickc("abc;, "); if (tame) t += sep; }
	if (tame && rng.chance(1, 2)) t += sep;
	Model m(t, sep); Chunky is(t, rng.next()); cybozu::CsvReaderT<Chunky> rd(is, sep); std::string d = fmt("sep=%02x ", sep) + hex(t); note(d); distinct(hashStr(t) + sep);
	for (int k = 0;; k++) {
		Row want, got(1, "old"); int w = m.next(&want), g = 0; try { g = rd.read(got) ? 0 : 1; } catch (cybozu::Exception&) { g = 2; }
		VF_CHECK(w == g, "dialect-status", d + fmt(" row %d expected %d got %d ", k, w, g) + show(got)); if (w == 2) { count("rejected"); break; } if (w == 1) { count("end"); break; } VF_CHECK(got == want, "dialect-row", d + fmt(" row %d ", k) + show(got) + " want " + show(want)); evals();
	}
	if (wantSample()) sample(d);
}
// the row size limit is per row
VF_PART(limit, 6000, 200000)
{
	const size_t MAX = 32; std::string t; std::vector<Row> rows; bool bad = false; size_t n = 1 + rng.below(12);
	for (size_t k = 0; k < n && !bad; k++) { Row r(1 + rng.below(4)); size_t tot = 0; for (size_t j = 0; j < r.size(); j++) { r[j] = rng.from("abcdef", 1 + rng.below(rng.chance(1, 20) ? 20 : 8)); tot += r[j].size(); if (j) t += ','; t += r[j]; } t += "\n"; if (tot >= MAX) bad = true; else rows.push_back(r); }
	Chunky is(t, rng.next()); cybozu::CsvReaderT<Chunky, MAX> rd(is); std::string d = hex(t);
	for (auto& w : rows) { Row g; bool ok = false; try { ok = rd.read(g); } catch (cybozu::Exception& e) { fail("limit-cumulative", d + e.what()); } VF_CHECK(ok && g == w, "limit-row", d); }
	Row g; bool th = false, ok = false; try { ok = rd.read(g); } catch (cybozu::Exception&) { th = true; } VF_CHECK(bad ? th : !ok && !th, "limit-exceeded", d); count(bad ? "limit-hit" : "limit-ok"); distinct(hashStr(t));
}
VF_PART(file, 300, 3000)
{
	std::string name = st().scratch + "/t.csv"; char sep = seps[rng.below(4)]; std::vector<Row> rows(std::min<size_t>(rng.len(30), 9000)); { cybozu::CsvWriter w(name, sep); for (auto& r : rows) { r.resize(1 + rng.len(30)); for (auto& f : r) f = field(rng, sep); w.write(r.begin(), r.end()); } }
	cybozu::CsvReader rd(name, sep); for (auto& r : rows) { Row g, w = r; for (auto& f : w) f = noCR(f); VF_CHECK(rd.read(g) && g == w, "file-row", show(g)); } Row g; VF_CHECK(!rd.read(g), "file-extra", ""); count("file"); unlink(name.c_str());
}
VF_PART(separator, 256, 256)
{
	char c = (char)idx; bool want = c == ',' || c == '\t' || c == ';' || c == ' '; std::string s; cybozu::StringInputStream is(s); cybozu::StringOutputStream os(s); bool t1 = false, t2 = false;
	try { cybozu::CsvReaderT<cybozu::StringInputStream> r(is, c); } catch (cybozu::Exception&) { t1 = true; } try { cybozu::CsvWriterT<cybozu::StringOutputStream> w(os, c); } catch (cybozu::Exception&) { t2 = true; } VF_CHECK(t1 == !want && t2 == !want, "separator", fmt("%d", c));
}
VF_LONG(longroundtrip, roundtrip, 80, 2000, 1500000)
VF_LONG(longdialect, dialect, 400, 20000, 200000)
VF_LONG(longfile, file, 24, 600, 100000)
