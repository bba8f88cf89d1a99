// C21: Time parsing/printing vs civil calendar arithmetic; format vs vsnprintf.
#include <stdint.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sstream>
#include "common.hpp"
#include <cybozu/time.hpp>
#include <cybozu/format.hpp>
using namespace vf;
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = y / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int mlen(int y, int m) { static const int t[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : t[m - 1]; }
static const char *mon[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
struct F { int y, mo, d, h, mi, s, ms; int64_t t() const { return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s; } };
static F rf(Rng& g) { F f; f.y = g.chance(1, 3) ? (int)g.range(1970, 1972) : g.chance(1, 3) ? (g.chance(1, 2) ? 2000 : g.chance(1, 3) ? 2100 : g.chance(1, 2) ? 3000 : 2038) : (int)g.range(1970, 3000); f.mo = g.chance(1, 3) ? 2 : 1 + (int)g.below(12); f.d = g.chance(1, 3) ? mlen(f.y, f.mo) : 1 + (int)g.below(mlen(f.y, f.mo)); f.h = g.chance(1, 3) ? 23 * g.below(2) : g.below(24); f.mi = g.chance(1, 3) ? 59 * g.below(2) : g.below(60); f.s = g.chance(1, 3) ? 59 * g.below(2) : g.below(60); f.ms = g.chance(1, 3) ? (int)g.pick(std::vector<int>{ 0, 1, 9, 10, 99, 100, 999 }) : (int)g.below(1000); return f; }
// results never depend on the local time zone
static void zone(Rng& g) { static const char *z[] = { "UTC", "JST-9", "EST5EDT,M3.2.0,M11.1.0", "XXX+11:30", "IST-5:30" }; setenv("TZ", z[g.below(5)], 1); tzset(); }
static std::string text(Rng& g, const F& f, bool *hasMs) { char sep = g.chance(1, 2) ? '-' : '/'; *hasMs = g.chance(1, 2); std::string s = fmt("%04d%c%s%c%02d%c%02d:%02d:%02d", f.y, sep, (g.chance(1, 2) ? std::string(mon[f.mo - 1]) : fmt("%02d", f.mo)).c_str(), sep, f.d, g.chance(1, 2) ? 'T' : ' ', f.h, f.mi, f.s); if (*hasMs) s += fmt(".%03d", f.ms); if (g.chance(1, 2)) s += 'Z'; return s; }
static bool num(const std::string& s, size_t p, size_t n, int a, int b, int *v) { if (p + n > s.size()) return false; int x = 0; for (size_t i = p; i < p + n; i++) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + s[i] - '0'; } *v = x; return a <= x && x <= b; }
// 1 valid, 0 invalid, -1 not claimed
static int refParse(const std::string& s, F *f)
{
	*f = F(); if (!num(s, 0, 4, 1970, 3000, &f->y)) return 0; if (s.size() < 19) return 0; char sep = s[4]; if (sep != '-' && sep != '/') return 0; size_t p = 5; bool named = false; for (int i = 0; i < 12; i++) if (s.compare(p, 3, mon[i]) == 0) { f->mo = i + 1; named = true; } if (!named && !num(s, p, 2, 1, 12, &f->mo)) return 0; p += named ? 3 : 2; auto ch = [&](const char *set) { return p < s.size() && strchr(set, s[p]) && s[p] ? (p++, true) : false; };
	if (p >= s.size() || s[p++] != sep) return 0; if (!num(s, p, 2, 1, 31, &f->d)) return 0; p += 2; if (!ch("T ")) return 0; if (!num(s, p, 2, 0, 23, &f->h)) return 0; p += 2; if (!ch(":")) return 0; if (!num(s, p, 2, 0, 59, &f->mi)) return 0; p += 2; if (!ch(":")) return 0; if (!num(s, p, 2, 0, 59, &f->s)) return 0; p += 2; if (p < s.size() && s[p] == '.') { if (!num(s, p + 1, 3, 0, 999, &f->ms)) return 0; p += 4; } if (p < s.size() && s[p] == 'Z') p++; if (p != s.size()) return 0; return f->d > mlen(f->y, f->mo) ? -1 : 1;
}
static void parse(Rng& g, const std::string& s)
{
	F f; int ok = refParse(s, &f); std::string d = "'" + s + "'"; Exact e(s); cybozu::Time t(12345, 678); bool b = false; int way = g.below(4); bool thrown = false; note(d);
	if (way == 0) { b = !(ok == 1); t.fromString(&b, e.p, e.p + e.n); } else if (way == 1) { try { t.fromString(e.p, e.p + e.n); b = true; } catch (cybozu::Exception&) { thrown = true; } } else if (way == 2) { b = !(ok == 1); t.fromString(&b, s); } else { try { cybozu::Time u(s); t = u; b = true; } catch (cybozu::Exception&) { thrown = true; } } evals(); (void)thrown;
	if (ok == 1) { VF_CHECK(b, "accept", d); VF_CHECK((int64_t)t.getTime() == f.t() && t.getMsec() == f.ms, "value", d + fmt(" got %lld.%d want %lld.%d", (long long)t.getTime(), t.getMsec(), (long long)f.t(), f.ms)); if (strlen(s.c_str()) == s.size()) { cybozu::Time c(s.c_str()); VF_CHECK(c == t && !(c != t), "cstr", d); } count("accepted"); }
	else if (ok == 0) { VF_CHECK(!b, "refuse", d); VF_CHECK(t.getTime() == 12345 && t.getMsec() == 678, "refuse-unchanged", d); count("refused"); }
}
VF_PART(parse, 60000, 2000000)
{
	zone(rng); F f = rf(rng); bool hm; std::string s = text(rng, f, &hm); if (rng.chance(1, 20)) s.replace(0, 4, rng.pick(std::vector<std::string>{ "1969", "1970", "3000", "3001", "0000", "9999", "1900" })); if (wantSample()) sample(s); if (!rng.chance(1, 3)) for (int k = 1 + rng.below(2); k > 0; k--) switch (rng.below(5)) { case 0: s = s.substr(0, rng.below(s.size() + 1)); break; case 1: if (!s.empty()) s[rng.below(s.size())] = rng.pickc("0123456789-/:TZ. +xJan"); break; case 2: s.insert(rng.below(s.size() + 1), 1, rng.pickc("0123456789-/:TZ. ")); break; case 3: if (!s.empty()) s.erase(rng.below(s.size()), 1); break; default: s += rng.from("Z.0123456789 ", 1 + rng.below(4)); }
	distinct(hashStr(s)); parse(rng, s);
}
VF_PART(print, 40000, 1000000)
{
	zone(rng); F f = rf(rng); const int64_t t = f.t(); cybozu::Time x(t, f.ms); std::string w = fmt("%04d-%02d-%02d %02d:%02d:%02d", f.y, f.mo, f.d, f.h, f.mi, f.s), wm = w + fmt(".%03d", f.ms); distinct(mix(t * 1000 + f.ms)); VF_EQ(x.toString(), wm, "print", x.toString() + " want " + wm); VF_EQ(x.toString(false), w, "print-nomsec", x.toString(false) + " want " + w); { std::string o = "ab"; x.toString(o, true, false); VF_EQ(o, "ab" + wm, "print-append", o); x.toString(o, false); VF_EQ(o, w, "print-clear", o); x.toString(o, "%Y/%b/%d %H-%M-%S", false); VF_EQ(o, fmt("%04d/%s/%02d %02d-%02d-%02d", f.y, mon[f.mo - 1], f.d, f.h, f.mi, f.s), "print-format", o); { std::string lit = rng.from("abc -/", rng.below(95)); x.toString(o, (lit + "%Y %B %d").c_str(), true); static const char *const full[] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" }; VF_EQ(o, lit + fmt("%04d %s %02d%03d", f.y, full[f.mo - 1], f.d, f.ms), "print-format-long", o); } x.toString(o, "%j:", true, false); std::ostringstream os; os << x; VF_EQ(os.str(), wm, "print-stream", os.str()); }
	{ cybozu::Time y(wm); VF_CHECK(y == x && !(y != x) && !(y < x) && !(x < y), "roundtrip", wm); } count("printed");
	// ordering, arithmetic, FILETIME
	F g2 = rf(rng); if (rng.chance(1, 3)) { g2 = f; g2.ms = rng.below(1000); } cybozu::Time y; y.setTime(g2.t(), g2.ms); int64_t a = t * 1000 + f.ms, b = g2.t() * 1000 + g2.ms; VF_CHECK((x < y) == (a < b) && (y < x) == (b < a) && (x == y) == (a == b) && (x != y) == (a != b), "order", wm); VF_CHECK(x.getTimeSec() > t - 1e-3 && x.getTimeSec() - t < 1.0 && (x.getTimeSec() - t - f.ms * 1e-3 < 1e-3), "sec", wm);
	uint32_t lo, hi; x.getFILETIME(lo, hi); const uint64_t ft = ((uint64_t)t * 1000 + f.ms) * 10000 + 116444736000000000ull; VF_CHECK(((uint64_t)hi << 32 | lo) == ft, "filetime", wm); cybozu::Time z; uint64_t ft2 = ft + rng.below(10000); z.setByFILETIME((uint32_t)ft2, (uint32_t)(ft2 >> 32)); VF_CHECK(z == x, "from-filetime", wm); unsigned long l2, h2; x.getFILETIME(l2, h2); VF_CHECK((uint32_t)l2 == lo && h2 == hi, "filetime-long", wm); int add = (int)rng.range(-100000, 100000000); z.addSec(add); VF_CHECK(z.getTime() == t + add && z.getMsec() == f.ms, "addSec", wm); count("filetime"); evals();
}
static int64_t nowMs(double *sec) { struct timespec p; clock_gettime(CLOCK_REALTIME, &p); if (sec) *sec = (double)p.tv_sec + p.tv_nsec * 1e-9; return (int64_t)p.tv_sec * 1000 + p.tv_nsec / 1000000; }
VF_PART(now, 4000, 40000)
{
	bool in = false; std::string d; // the clock could be stepped by someone else between two readings, hence the repetition
	for (int k = 0; k < 4 && !in; k++) {
		double s0, s1; int64_t a = nowMs(&s0); cybozu::Time t(true); cybozu::Time u; u.setCurrentTime(); double s = cybozu::GetCurrentTimeSec(); int64_t b = nowMs(&s1); int64_t x = (int64_t)t.getTime() * 1000 + t.getMsec(), y = (int64_t)u.getTime() * 1000 + u.getMsec();
		in = a <= x && x <= y && y <= b && s0 - 1e-3 - 2e-6 <= s && s <= s1 + 2e-6; d = fmt("%lld %lld %lld %lld  %.7f %.7f %.7f", (long long)a, (long long)x, (long long)y, (long long)b, s0, s, s1); VF_CHECK(t.getMsec() >= 0 && t.getMsec() < 1000 && u.getMsec() >= 0 && u.getMsec() < 1000, "now-msec", d);
	}
	VF_CHECK(in, "now", d); count("now"); evals(); distinct(idx); usleep(idx % 8 * 130);
}
VF_PART(format, 8000, 300000)
{
	std::string s = rng.bytes(rng.chance(1, 20) ? rng.below(20000) : rng.len(300)); for (auto& c : s) if (!c) c = 'x'; int v = (int)rng.edgy64(); long long l = (long long)rng.edgy64(); int w = rng.below(80); char c = (char)rng.below(256); std::vector<char> buf(s.size() + 1000); int n = snprintf(buf.data(), buf.size(), "[%s|%d|%*lld|%c|%.3f|%-*x]", s.c_str(), v, w, l, c, v / 7.0, w, (unsigned)v); std::string want(buf.data(), n); VF_EQ(cybozu::format("[%s|%d|%*lld|%c|%.3f|%-*x]", s.c_str(), v, w, l, c, v / 7.0, w, (unsigned)v), want, "format", want.substr(0, 100)); std::string o = "previous"; cybozu::format(o, "%s", s.c_str()); VF_EQ(o, s, "format-str", ""); cybozu::format(o, "%s", ""); VF_CHECK(o.empty(), "format-empty", ""); cybozu::format(o, "%d%%", v); VF_EQ(o, fmt("%d%%", v), "format-d", o); count("format"); evals(); distinct(hashStr(s));
}
VF_LONG(longformat, format, 60, 2000, 500000)
