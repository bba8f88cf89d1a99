// C23: File class and file helpers with injected EINTR / short transfers / hard errors, checked against independently read file contents and an fd census.
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <set>
#include <algorithm>
#include "inject.hpp"
#include <cybozu/file.hpp>
using namespace vf;
static std::string slurp(const std::string& n) { inj::off(); FILE *f = fopen(n.c_str(), "rb"); if (!f) return "<none>"; std::string r; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) r.append(b, k); fclose(f); return r; }
static void spit(const std::string& n, const std::string& s) { inj::off(); FILE *f = fopen(n.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void arm(Rng& g) { inj::arm(g.next(), g.chance(1, 3) ? 0 : 2 + g.below(6), g.chance(1, 4) ? 0 : 1 + g.below(4)); }
struct Fds { int n; std::string d; explicit Fds() : n(inj::fdCount()) {} void check(const std::string& d) { inj::off(); int m = inj::fdCount(); VF_CHECK(n == m, "fd-leak", d + fmt(" %d open before, %d after", n, m)); } };
VF_PART(write, 4000, 120000)
{
	std::string name = st().scratch + "/w"; bool pre = rng.chance(1, 2); std::string model = pre ? rng.bytes(rng.len(300)) : ""; unlink(name.c_str()); if (pre) spit(name, model); bool app = rng.chance(1, 2); std::string d = fmt("pre %zu app %d:", model.size(), app); if (!app) model.clear(); Fds fds;
	{ arm(rng); cybozu::File f; int how = rng.below(3); if (app) { if (how) f.open(name, std::ios::out | std::ios::app | (how == 1 ? std::ios::binary : std::ios::openmode())); else { cybozu::File h(name, std::ios::out | std::ios::app); VF_CHECK(h.isOpen(), "open", d); h.write("", 0); h.close(); VF_CHECK(!h.isOpen(), "close", d); f.open(name, std::ios::out | std::ios::app); } } else { if (how == 0) f.openW(name); else f.open(name, how == 1 ? std::ios::out : std::ios::out | std::ios::trunc | std::ios::binary); } VF_CHECK(f.isOpen(), "isOpen", d); VF_CHECK(throws<cybozu::Exception>([&] { f.openW(name); }), "reopen", d);
		for (int k = rng.below(8); k > 0; k--) { std::string s = rng.bytes(rng.chance(1, 20) ? rng.below(100000) : rng.len(400)); Exact e(s); bool bad = rng.chance(1, 12) && !s.empty(); d += fmt(" %zu%s", s.size(), bad ? "!" : ""); note(d); if (bad) { int err = rng.chance(1, 2) ? ENOSPC : EIO; inj::fail(inj::Write, 0, err); uint64_t nf = inj::nFail; bool t = throws<cybozu::Exception>([&] { f.write(e.p, e.n); }); if (inj::nFail > nf) { VF_CHECK(t, "write-error", d); count("hard-error"); } else VF_CHECK(!t, "write", d); arm(rng); inj::off(); struct stat sb; std::string now = slurp(name); VF_CHECK(now.compare(0, model.size(), model) == 0 && (model + s).compare(0, now.size(), now) == 0, "write-prefix", d); model = now; arm(rng); } else { f.write(e.p, e.n); model += s; } if (rng.chance(1, 6)) f.sync(rng.chance(1, 2)); if (rng.chance(1, 5)) VF_EQ(f.getSize(), (uint64_t)model.size(), "getSize", d); }
		if (rng.chance(1, 5)) { inj::fail(inj::Sync, 0, EIO); bool t = throws<cybozu::Exception>([&] { f.sync(); }); VF_CHECK(t || inj::failIn >= 0, "sync-error", d); inj::off(); } if (app && rng.chance(1, 3)) { inj::off(); std::string x = rng.bytes(1 + rng.below(50)), y = rng.bytes(1 + rng.below(50)); FILE *o = fopen(name.c_str(), "ab"); fwrite(x.data(), 1, x.size(), o); fclose(o); arm(rng); f.write(y.data(), y.size()); model += x + y; count("appended-by-others"); } int end = rng.below(5); uint64_t bad = inj::badClose; if (end == 4) { inj::arm(1, 0, 0); inj::fail(inj::Close, 0, EIO); uint64_t nf = inj::nFail; bool t = throws<cybozu::Exception>([&] { f.close(); }); if (inj::nFail > nf) { VF_CHECK(t, "close-error", d); VF_CHECK(!f.isOpen(), "close-error-open", d); count("close-error"); } inj::off(); f.close(); VF_EQ((uint64_t)inj::badClose, bad, "closed-twice", d); if (rng.chance(1, 2)) { std::string n2 = name + "x"; f.openW(n2); f.write("again", 5); f.close(); VF_EQ(slurp(n2), "again", "reuse", d); } } else if (end == 0) { f.close(); f.close(); f.sync(); } else if (end == 1) { inj::fail(inj::Sync | inj::Close, 0, EIO); /* the destructor must still release */ } else inj::off(); }
	fds.check(d); std::string got = slurp(name); VF_CHECK(got == model, "content", d + fmt(" file has %zu bytes want %zu", got.size(), model.size())); VF_EQ(cybozu::GetFileSize(name), (uint64_t)model.size(), "GetFileSize", d); count("written"); distinct(hashStr(model)); evals();
}
VF_PART(read, 5000, 150000)
{
	std::string name = st().scratch + "/r", c = rng.bytes(rng.chance(1, 20) ? rng.below(200000) : rng.len(500)); spit(name, c); std::string d = fmt("size %zu:", c.size()); Fds fds;
	{ arm(rng); cybozu::File f; if (rng.chance(1, 2)) f.openR(name); else f.open(name, std::ios::in); VF_EQ(f.getSize(), (uint64_t)c.size(), "getSize", d); size_t pos = 0; for (int k = 1 + rng.below(12); k > 0; k--) { size_t n = rng.chance(1, 3) ? c.size() - std::min(pos, c.size()) : rng.len(300); switch (rng.below(6)) {
			case 0: case 1: { Exact e(n); size_t r = f.readSome(e.p, n); d += fmt(" some %zu=%zu", n, r); size_t left = pos < c.size() ? c.size() - pos : 0; VF_CHECK(r <= n && r <= left && (r > 0 || n == 0 || left == 0), "readSome-size", d); VF_CHECK(!memcmp(e.p, c.data() + std::min(pos, c.size()), r), "readSome", d); pos += r; break; }
			case 2: case 3: { Exact e(n); size_t left = pos < c.size() ? c.size() - pos : 0; d += fmt(" read %zu", n); note(d); if (n > left) { VF_CHECK(throws<cybozu::Exception>([&] { f.read(e.p, n); }), "read-eof", d); f.seek(0, std::ios::beg); pos = 0; count("eof"); } else { f.read(e.p, n); VF_CHECK(!memcmp(e.p, c.data() + std::min(pos, c.size()), n), "read", d); pos += n; } break; }
			case 4: { size_t t = rng.below(c.size() + 3); int w = rng.below(3); d += fmt(" seek %zu/%d", t, w); if (w == 0) f.seek(t, std::ios::beg); else if (w == 1) f.seek((int64_t)t - (int64_t)pos, std::ios::cur); else f.seek((int64_t)t - (int64_t)c.size(), std::ios::end); pos = t; VF_CHECK(throws<cybozu::Exception>([&] { f.seek(-1, std::ios::beg); }), "seek-neg", d); break; }
			default: { inj::fail(inj::Read, 0, EIO); uint64_t nf = inj::nFail; Exact e(5); bool t = throws<cybozu::Exception>([&] { f.readSome(e.p, 5); }); if (inj::nFail > nf) { VF_CHECK(t, "read-error", d); count("hard-error"); } else { f.seek(pos, std::ios::beg); } arm(rng); f.seek(pos, std::ios::beg); } } count("read"); }
		if (rng.chance(1, 2)) { VF_CHECK(throws<cybozu::Exception>([&] { f.write("x", 1); }), "write-on-read", d); f.sync(); } }
	fds.check(d); VF_CHECK(slurp(name) == c, "unchanged", d); distinct(hashStr(d)); evals();
}
VF_PART(open, 2500, 40000)
{
	std::string name = st().scratch + "/o", d; Fds fds; std::ios::openmode m = std::ios::openmode(); if (rng.chance(1, 2)) m |= std::ios::in; if (rng.chance(1, 2)) m |= std::ios::out; if (rng.chance(1, 3)) m |= std::ios::app; if (rng.chance(1, 3)) m |= std::ios::trunc; if (rng.chance(1, 2)) m |= std::ios::binary; bool in = !!(m & std::ios::in), out = !!(m & std::ios::out), app = !!(m & std::ios::app), tr = !!(m & std::ios::trunc); bool valid = in != out && !(in && (app || tr)) && !(app && tr); bool exists = rng.chance(2, 3); d = fmt("mode in %d out %d app %d trunc %d exists %d", in, out, app, tr, exists); std::string c = "0123456789"; unlink(name.c_str()); if (exists) spit(name, c); note(d);
	int inject = rng.below(4); bool want = valid && (out || exists); { if (inject == 0) { inj::arm(1, 0, 0); int kind = rng.below(app ? 3 : 1); inj::fail(kind == 0 ? inj::Open : kind == 1 ? inj::Stat : inj::Seek, 0, kind == 0 ? EMFILE : EIO); } uint64_t nf = inj::nFail; bool ok; if (rng.chance(1, 2)) ok = !throws<cybozu::Exception>([&] { cybozu::File f(name, m); VF_CHECK(f.isOpen(), "open", d); }); else { cybozu::File f; ok = !throws<cybozu::Exception>([&] { f.open(name, m); }); VF_EQ(f.isOpen(), ok, "isOpen", d); if (!ok) { inj::off(); f.openW(name + "2"); VF_CHECK(f.isOpen(), "usable-after-failure", d); } } bool hit = inj::nFail > nf; inj::off(); VF_EQ(ok, want && !hit, "open-result", d + fmt(" injected %d", hit)); if (hit) count("open-error"); if (!valid) { count("bad-mode"); VF_CHECK(slurp(name) == (exists ? c : "<none>"), "bad-mode-touched", d); } else if (ok) VF_CHECK(slurp(name) == (in || app ? (exists ? c : "") : ""), "open-content", d); }
	if (rng.chance(1, 10)) { // special files: sync fails on them
		{ cybozu::File f; f.openW("/dev/null"); f.write("abc", 3); } int p[2]; if (pipe(p) == 0) { { cybozu::File w(p[1]), r(p[0]); w.write("hello", 5); char b[5]; r.read(b, 5); VF_CHECK(!memcmp(b, "hello", 5), "handle", d); } VF_CHECK(fcntl(p[0], F_GETFD) != -1 && fcntl(p[1], F_GETFD) != -1, "handle-kept", "a File made from a handle must not close it"); { Fds h; { cybozu::File w(p[1]); w.close(); w.openW(name + "3"); w.write("q", 1); } VF_EQ(inj::fdCount(), h.n - 1, "handle-reopened", d); } close(p[0]); } count("handle"); std::string full = "/dev/full"; { cybozu::File f; f.openW(full); VF_CHECK(throws<cybozu::Exception>([&] { f.write("abc", 3); }), "full", d); } std::string ff = st().scratch + "/fifo"; unlink(ff.c_str()); if (mkfifo(ff.c_str(), 0600) == 0) { int keep = open(ff.c_str(), O_RDWR); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::File f(ff, std::ios::out | std::ios::app); }), "fifo-append", d); close(keep); unlink(ff.c_str()); } }
	fds.check(d); evals(); distinct(mix((uint64_t)m * 8 + exists * 4 + inject));
}
VF_PART(big, 2, 6) // transfers above 2 GiB are split, never truncated
{
	if (st().scale < 1) return; size_t n = (size_t(1) << 31) + 4096 * (1 + rng.below(100)); char *p = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); VF_CHECK(p != MAP_FAILED, "mmap", ""); int pp[2]; std::string name = st().scratch + "/z"; { int fd = open(name.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); if (ftruncate(fd, n)) {} pwrite(fd, "tail", 4, n - 4); pwrite(fd, "mid", 3, 0x7fffffff); close(fd); } { cybozu::File f; f.openR(name); VF_EQ(f.getSize(), (uint64_t)n, "big-size", ""); f.seek(n - 4, std::ios::beg); char t[4]; f.read(t, 4); VF_CHECK(!memcmp(t, "tail", 4), "big-seek", ""); f.seek(0x7ffffffe, std::ios::beg); f.read(t, 4); VF_CHECK(!memcmp(t + 1, "mid", 3), "big-seek", ""); if (idx == 0) { cybozu::File w; w.openW("/dev/null"); w.write(p, n); size_t r = f.readSome(t, 0); VF_CHECK(r == 0, "zero", ""); } } VF_EQ(cybozu::GetFileSize(name), (uint64_t)n, "big-GetFileSize", ""); munmap(p, n); unlink(name.c_str()); (void)pp; count("big"); evals(); distinct(n);
}
static std::string fakeExe;
extern "C" ssize_t __real_readlink(const char *, char *, size_t);
extern "C" ssize_t __wrap_readlink(const char *p, char *b, size_t n) { if (fakeExe.empty() || strcmp(p, "/proc/self/exe")) return __real_readlink(p, b, n); size_t k = std::min(n, fakeExe.size()); memcpy(b, fakeExe.data(), k); count("fake-exe"); return k; }
VF_PART(names, 30000, 500000)
{
	std::string n = rng.from("ab./\\x", rng.len(12)), e = rng.from("ab.x", rng.below(5)); if (rng.chance(1, 3)) n += "." + e; if (rng.chance(1, 3)) n += e; std::string d = "'" + n + "' '" + e + "'"; bool w = e.empty() || (n.size() > e.size() && n.substr(n.size() - e.size() - 1) == "." + e); VF_EQ(cybozu::HasExtension(n, e), w, "HasExtension", d); size_t p = n.rfind('.'); std::string suf = "old", b = cybozu::GetBaseName(n, &suf); VF_CHECK(b == (p == n.npos ? n : n.substr(0, p)) && suf == (p == n.npos ? "" : n.substr(p + 1)) && cybozu::GetBaseName(n) == b, "GetBaseName", d + " -> " + b + " " + suf); std::string r = n, q = n; for (auto& c : q) if (c == '\\') c = '/'; cybozu::ReplaceBackSlash(r); VF_EQ(r, q, "ReplaceBackSlash", d); count("names"); distinct(hashStr(d)); evals();
	if (idx % 1000 == 0) { char buf[5000]; ssize_t k = readlink("/proc/self/exe", buf, sizeof(buf)); std::string full(buf, k), base; std::string dir = cybozu::GetExePath(&base); VF_CHECK(dir + base == full && dir == cybozu::GetExePath(), "GetExePath", dir + " " + base); }
	if (idx % 8 == 0) { std::string dir = "/" + rng.from("ab.", rng.below(5)) + "/", file = rng.from("abx", 1 + rng.below(4)) + rng.pick(std::vector<std::string>{ "", ".exe", ".out", ".exe.txt", ".exex", ".", ".tar.exe" }); if (rng.chance(1, 2)) dir = "/"; if (rng.chance(1, 20)) dir += std::string(1000 + rng.below(2900), 'd') + "/"; fakeExe = dir + file; std::string base = "old"; long before = 0; std::string r = cybozu::GetExePath(&base); std::string full = fakeExe; fakeExe.clear(); char buf[5000]; ssize_t k = readlink("/proc/self/exe", buf, sizeof(buf)); if (r != std::string(buf, k).substr(0, std::string(buf, k).rfind('/') + 1)) { VF_EQ(r, dir, "GetExePath-dir", full); bool exe = file.size() > 4 && file.substr(file.size() - 4) == ".exe"; VF_EQ(base, exe ? file.substr(0, file.size() - 4) : file, "GetExePath-base", full); } (void)before; }
}
VF_PART(dir, 1200, 20000)
{
	std::string dir = st().scratch + fmt("/d%d", (int)idx); mkdir(dir.c_str(), 0700); std::set<std::string> have, sub, other; for (int i = rng.below(20); i > 0; i--) { std::string n = rng.from(rng.chance(1, 4) ? "ab." : "abc", 1 + rng.below(4)) + rng.pick(std::vector<std::string>{ "", ".txt", ".cpp", ".", ".tx", "txt", ".txt.cpp" }); if (n == "." || n == ".." || have.count(n)) continue; have.insert(n); if (rng.chance(1, 10)) { if (symlink(rng.chance(1, 2) ? "/dev/null" : ".", (dir + "/" + n).c_str())) {} other.insert(n); } else if (rng.chance(1, 15)) { mkfifo((dir + "/" + n).c_str(), 0600); other.insert(n); } else if (rng.chance(1, 5)) { mkdir((dir + "/" + n).c_str(), 0700); sub.insert(n); } else spit(dir + "/" + n, "z"); } std::string d = fmt("%zu entries", have.size()); Fds fds;
	std::string ext = rng.pick(std::vector<std::string>{ "", "txt", "cpp", "none" }); cybozu::FileList fl; bool keep = rng.chance(1, 3); if (keep) fl.push_back(cybozu::FileInfo("prev", DT_REG)); VF_CHECK(cybozu::GetFileList(fl, dir, ext), "list", d); std::set<std::string> got, want; for (auto& x : fl) { VF_CHECK(got.insert(x.name).second, "list-dup", x.name); if (have.count(x.name)) { VF_CHECK(x.isUnknown() || (x.isDirectory() == !!sub.count(x.name) && x.isFile() == (!sub.count(x.name) && !other.count(x.name))), "list-type", x.name); } } if (keep) want.insert("prev"); for (auto& n : have) if (ext.empty() || (n.size() > ext.size() && n.substr(n.size() - ext.size() - 1) == "." + ext)) want.insert(n); VF_CHECK(got == want, "list-set", d + " ext " + ext); count("list");
	{ auto l2 = cybozu::GetFileList(dir); VF_EQ(l2.size(), have.size(), "list2", d); } VF_CHECK(throws<cybozu::Exception>([&] { cybozu::GetFileList(dir + "/nothing/here"); }), "list-missing", d); { inj::arm(1, 0, 0); inj::fail(inj::Dir, rng.below(have.size() + 2), EIO); uint64_t nf = inj::nFail; cybozu::FileList l3; bool ok = cybozu::GetFileList(l3, dir); if (inj::nFail > nf) { VF_CHECK(!ok, "list-error", d); } inj::off(); }
	// exist / rename / remove
	std::string a = dir + "/ren_a", b = dir + "/ren_b"; spit(a, "A"); VF_CHECK(cybozu::DoesFileExist(a) && !cybozu::DoesFileExist(b) && !cybozu::DoesFileExist("") && cybozu::DoesFileExist(dir + "/") && cybozu::DoesFileExist(dir + "\\") && cybozu::DoesFileExist(dir), "exist", d); bool tgt = rng.chance(1, 2); if (tgt) { std::string B = rng.chance(1, 2) ? "B" : ""; spit(b, B); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::RenameFile(a, b); }), "rename-existing", d); VF_CHECK(slurp(a) == "A" && slurp(b) == B, "rename-kept", d); if (!sub.empty()) VF_CHECK(throws<cybozu::Exception>([&] { cybozu::RenameFile(a, dir + "/" + *sub.begin()); }) && slurp(a) == "A", "rename-onto-directory", d); cybozu::RemoveFile(b); VF_CHECK(!cybozu::DoesFileExist(b), "remove", d); } VF_CHECK(throws<cybozu::Exception>([&] { cybozu::RenameFile(a, a); }) && slurp(a) == "A", "rename-onto-itself", d); cybozu::RenameFile(a, b); VF_CHECK(!cybozu::DoesFileExist(a) && slurp(b) == "A", "rename", d); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::RenameFile(a, dir + "/q"); }) && throws<cybozu::Exception>([&] { cybozu::RemoveFile(a); }) && throws<cybozu::Exception>([&] { cybozu::GetFileSize(a); }), "missing", d); cybozu::RemoveFile(b); count("rename"); fds.check(d); for (auto& n : have) if (sub.count(n)) rmdir((dir + "/" + n).c_str()); else unlink((dir + "/" + n).c_str()); rmdir(dir.c_str()); evals(); uint64_t h = 9; for (auto& n : have) h = mix(h ^ hashStr(n)); distinct(h);
}
