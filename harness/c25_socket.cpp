// C25: Socket / SocketAddr over loopback with injected EINTR, short transfers and failing calls; raw-syscall peers and an fd census are the oracle.
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <thread>
#include <atomic>
#include "inject.hpp"
#include <cybozu/socket.hpp>
#include <poll.h>
using namespace vf;
namespace nt { enum { Sock = 1 << 10, Bind = 1 << 11, Listen = 1 << 12, SetOpt = 1 << 13, GetOpt = 1 << 14, Accept = 1 << 15, Connect = 1 << 16, Select = 1 << 17 };
static bool progress, immediate, selZero; static int soErr; static bool badAddr; static long infos; }
extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int); int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_getsockopt(int, int, int, void *, socklen_t *); int __real_accept(int, struct sockaddr *, socklen_t *); int __real_connect(int, const struct sockaddr *, socklen_t); int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_poll(struct pollfd *, nfds_t, int); int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **); void __real_freeaddrinfo(struct addrinfo *); ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
int __wrap_socket(int a, int b, int c) { if (inj::hit(nt::Sock)) return -1; return __real_socket(a, b, c); }
int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) { if (inj::hit(nt::Bind)) return -1; return __real_bind(a, b, c); }
int __wrap_listen(int a, int b) { if (inj::hit(nt::Listen)) return -1; return __real_listen(a, b); }
int __wrap_setsockopt(int a, int b, int c, const void *d, socklen_t e) { if (inj::hit(nt::SetOpt)) return -1; return __real_setsockopt(a, b, c, d, e); }
int __wrap_getsockopt(int a, int b, int c, void *d, socklen_t *e) { if (inj::hit(nt::GetOpt)) return -1; int r = __real_getsockopt(a, b, c, d, e); if (inj::on && c == SO_ERROR && b == SOL_SOCKET && nt::soErr) *(int *)d = nt::soErr; return r; }
int __wrap_accept(int a, struct sockaddr *b, socklen_t *c) { if (inj::hit(nt::Accept)) return -1; int r = __real_accept(a, b, c); if (r >= 0 && inj::on && nt::badAddr && b && c) { *c = 2; b->sa_family = AF_UNIX; } return r; }
int __wrap_connect(int a, const struct sockaddr *b, socklen_t c) { if (inj::hit(nt::Connect)) return -1; int r = __real_connect(a, b, c); if (r < 0 && errno == EINPROGRESS && inj::on && nt::immediate) { struct pollfd p = { a, POLLOUT, 0 }; int e = 0; socklen_t n = sizeof(e); if (__real_poll(&p, 1, 5000) == 1 && __real_getsockopt(a, SOL_SOCKET, SO_ERROR, &e, &n) == 0 && e == 0) return 0; errno = EINPROGRESS; } if (inj::on && nt::progress && (fcntl(a, F_GETFL) & O_NONBLOCK) && r == 0) { errno = EINPROGRESS; return -1; } return r; }
int __wrap_select(int a, fd_set *b, fd_set *c, fd_set *d, struct timeval *t) { if (inj::hit(nt::Select)) return -1; if (inj::on && nt::selZero) return 0; return __real_select(a, b, c, d, t); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { if (inj::hit(nt::Select)) return -1; if (inj::on && nt::selZero) return 0; return __real_poll(p, n, t); }
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { if (inj::intr() || inj::hit(inj::Read)) return -1; return __real_recv(fd, p, inj::cut(n), f); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { if (inj::intr() || inj::hit(inj::Write)) return -1; return __real_send(fd, p, inj::cut(n), f); }
int __wrap_getaddrinfo(const char *a, const char *b, const struct addrinfo *h, struct addrinfo **r) { struct addrinfo x = *h; x.ai_flags |= AI_NUMERICHOST; int e = __real_getaddrinfo(a, b, &x, r); if (e == 0) nt::infos++; return e; } // never ask a name server
void __wrap_freeaddrinfo(struct addrinfo *p) { nt::infos--; __real_freeaddrinfo(p); }
}
static std::vector<char> fdSet() { std::vector<char> v(256); for (int i = 0; i < 256; i++) v[i] = fcntl(i, F_GETFD) != -1; return v; }
static int newFd(const std::vector<char>& a) { int r = -1; for (int i = 0; i < 256; i++) if (!a[i] && fcntl(i, F_GETFD) != -1) { if (r >= 0) return -2; r = i; } return r; }
static uint16_t portOf(int fd) { union { sockaddr sa; sockaddr_in v4; sockaddr_in6 v6; } u; socklen_t n = sizeof(u); if (getsockname(fd, &u.sa, &n)) return 0; return ntohs(u.sa.sa_family == AF_INET ? u.v4.sin_port : u.v6.sin6_port); }
static void peerTimeout(int fd) { timeval t = { 30, 0 }; __real_setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof(t)); __real_setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof(t)); }
static int rawListen(uint16_t *port) { int s = __real_socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (__real_bind(s, (sockaddr *)&a, sizeof(a)) || __real_listen(s, 16)) { __real_close(s); return -1; } *port = portOf(s); return s; }
static int rawConnect(int fam, uint16_t port) { int s = __real_socket(fam, SOCK_STREAM, 0); if (s < 0) return -1; int r; if (fam == AF_INET) { sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); r = __real_connect(s, (sockaddr *)&a, sizeof(a)); } else { sockaddr_in6 a; memset(&a, 0, sizeof(a)); a.sin6_family = AF_INET6; a.sin6_port = htons(port); a.sin6_addr = in6addr_loopback; r = __real_connect(s, (sockaddr *)&a, sizeof(a)); } if (r) { __real_close(s); return -1; } peerTimeout(s); return s; }
static bool haveV6() { static int c = -1; if (c < 0) { c = 0; int s = __real_socket(AF_INET6, SOCK_STREAM, 0); if (s >= 0) { sockaddr_in6 a; memset(&a, 0, sizeof(a)); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; c = __real_bind(s, (sockaddr *)&a, sizeof(a)) == 0; __real_close(s); } } return c; }
static bool rawWrite(int fd, const char *p, size_t n) { while (n) { ssize_t r = __real_send(fd, p, n, MSG_NOSIGNAL); if (r <= 0) return false; p += r; n -= r; } return true; }
static std::string rawRead(int fd, size_t n) { std::string s(n, 0); size_t k = 0; while (k < n) { ssize_t r = __real_recv(fd, &s[k], n - k, 0); if (r <= 0) break; k += r; } s.resize(k); return s; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void arm(Rng& g) { inj::arm(g.next(), g.chance(1, 3) ? 0 : 2 + g.below(6), g.chance(1, 4) ? 0 : 1 + g.below(4)); nt::progress = nt::immediate = nt::selZero = false; nt::soErr = 0; }
static void plain() { inj::arm(1, 0, 0); nt::progress = nt::immediate = nt::selZero = false; nt::soErr = 0; }
struct Fds { int n; explicit Fds() : n(inj::fdCount()) {} void check(const std::string& d) { inj::off(); int m = inj::fdCount(); VF_CHECK(n == m, "fd-leak", d + fmt(" %d open before, %d after", n, m)); } };
static void bye(int fd) { struct linger l = { 1, 0 }; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); __real_close(fd); } // at the end of a case: no TIME_WAIT left behind
static bool libBind(cybozu::Socket& s, int mode = cybozu::Socket::allowIPv4) { try { s.bind(0, mode); return true; } catch (cybozu::Exception&) { int q = __real_socket(AF_INET, SOCK_STREAM, 0), on = 1; sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; __real_setsockopt(q, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on)); bool ok = __real_bind(q, (sockaddr *)&a, sizeof(a)) == 0 && __real_listen(q, 1) == 0; __real_close(q); if (ok) throw; count("no-port"); return false; } } // false: the machine has no free port
// a connected pair: library socket + raw peer fd. how 0: library connects, 1: library connects with time limit, 2: library accepts, 3: accepts with address
static bool makePair(Rng& g, cybozu::Socket& s, int& peer, int how, const std::string& d)
{
	inj::off();
	if (how < 2) { uint16_t port; int l = rawListen(&port); if (l < 0) { count("no-port"); return false; } auto v = fdSet(); plain(); nt::progress = g.chance(1, 2); nt::immediate = !nt::progress && g.chance(1, 2); bool t = throws<cybozu::Exception>([&] { s.connect("127.0.0.1", port, how ? 5000 : 0); }); inj::off(); if (t) { int q = rawConnect(AF_INET, port); if (q < 0) { __real_close(l); count("no-port"); return false; } bye(q); } VF_CHECK(!t, "connect", d); { int f = newFd(v); VF_CHECK(t || f < 0 || !(fcntl(f, F_GETFL) & O_NONBLOCK), "connect-nonblocking", d); } if (t) { __real_close(l); return false; } peer = __real_accept(l, 0, 0); __real_close(l); }
	else { auto v = fdSet(); cybozu::Socket srv; if (!libBind(srv)) return false; int fd = newFd(v); VF_CHECK(fd >= 0, "bind-fd", d); if (fd < 0) return false; uint16_t port = portOf(fd); peer = rawConnect(AF_INET, port); VF_CHECK(peer >= 0, "bind-listens", d); if (peer < 0) return false; cybozu::SocketAddr a; VF_CHECK(srv.queryAccept(5000), "queryAccept", d); if (how == 3) { srv.accept(s, &a); VF_EQ(a.toStr(), fmt("127.0.0.1:%u", portOf(peer)), "accept-addr", d); VF_EQ((int)a.getFamily(), AF_INET, "accept-family", d); } else srv.accept(s); }
	if (peer >= 0) peerTimeout(peer); VF_CHECK(s.isValid(), "valid", d); return peer >= 0;
}
VF_IOPART(transfer, 1600, 40000, 25)
{
	int how = rng.below(4); std::string d = fmt("how %d", how); Fds fds; int peer = -1;
	{ cybozu::Socket s; if (!makePair(rng, s, peer, how, d)) return; bool big = rng.chance(1, 8); std::string up = rng.bytes(big ? rng.below(big ? 600000 : 1) : rng.len(3000)), down = rng.bytes(rng.chance(1, 8) ? rng.below(600000) : rng.len(3000)); std::string got; bool order = rng.chance(1, 2); size_t un = up.size();
		std::thread th([&, un] { if (order) { got = rawRead(peer, un); rawWrite(peer, down.data(), down.size()); } else { rawWrite(peer, down.data(), down.size()); got = rawRead(peer, un); } });
		d += fmt(" up %zu down %zu order %d:", up.size(), down.size(), order); note(d); arm(rng);
		auto doW = [&] { size_t p = 0; do { size_t n = rng.chance(1, 3) ? up.size() - p : std::min(rng.len(up.size()), up.size() - p); Exact e(up.substr(p, n)); d += fmt(" w%zu", n); bool t = false; if (rng.chance(1, 2)) { bool b = false; s.write(&b, e.p, n); t = !b; } else t = throws<cybozu::Exception>([&] { s.write(e.p, n); }); VF_CHECK(!t, "write", d); if (t) return; VF_CHECK(e.str() == up.substr(p, n), "write-const", d); p += n; } while (p < up.size()); };
		auto doR = [&] { size_t p = 0; while (p < down.size()) { size_t n = rng.chance(1, 3) ? down.size() - p : std::min(1 + rng.len(down.size()), down.size() - p); if (rng.chance(1, 2)) { Exact e(n + 8, 0x5a); d += fmt(" r%zu", n); bool t = throws<cybozu::Exception>([&] { s.read(e.p, n); }); VF_CHECK(!t, "read", d); if (t) return; VF_CHECK(!memcmp(e.p, &down[p], n), "read-data", d + fmt(" at %zu", p)); VF_CHECK(std::string(e.p + n, 8) == std::string(8, 0x5a), "read-excess", d); p += n; } else { size_t m = n + rng.below(5); Exact e(m); size_t r = s.readSome(e.p, m); d += fmt(" s%zu=%zu", m, r); VF_CHECK(r > 0 && r <= m && r <= down.size() - p, "readSome-size", d); if (r == 0 || r > down.size() - p) return; VF_CHECK(!memcmp(e.p, &down[p], r), "readSome-data", d + fmt(" at %zu", p)); p += r; } } };
		if (order) { doW(); doR(); } else { doR(); doW(); } inj::off(); th.join(); VF_CHECK(got == up, "sent-data", d + fmt(" peer got %zu of %zu", got.size(), up.size())); count("bytes", up.size() + down.size());
		if (rng.chance(1, 3)) { s.close(); VF_CHECK(!s.isValid(), "close-valid", d); char c; VF_EQ((int)__real_recv(peer, &c, 1, 0), 0, "close-eof", d); count("close"); } }
	bye(peer); fds.check(d); if (wantSample()) sample(d.substr(0, 300)); distinct(hashStr(d)); count("transfer"); evals();
}
VF_IOPART(end, 1600, 40000, 25)
{
	int how = rng.below(4), kind = rng.below(6); std::string d = fmt("how %d kind %d", how, kind); Fds fds; int peer = -1; auto closePeer = [&] { if (peer >= 0) { __real_close(peer); peer = -1; } };
	{ cybozu::Socket s; if (!makePair(rng, s, peer, how, d)) return; std::string x = rng.bytes(rng.len(2000)); note(d);
		if (kind == 0) { rawWrite(peer, x.data(), x.size()); closePeer(); arm(rng); size_t extra = 1 + rng.below(30); Exact e(x.size() + extra); VF_CHECK(throws<cybozu::Exception>([&] { s.read(e.p, e.n); }), "read-past-end", d); VF_CHECK(!memcmp(e.p, x.data(), x.size()), "read-partial", d); char c; VF_EQ(s.readSome(&c, 1), (size_t)0, "eof", d); count("eof"); }
		else if (kind == 1) { rawWrite(peer, x.data(), x.size()); __real_close(peer); peer = -1; arm(rng); std::string got; for (;;) { Exact e(1 + rng.below(700)); size_t r = s.readSome(e.p, e.n); if (r == 0 || r > e.n) break; got.append(e.p, r); } VF_CHECK(got == x, "drain", d); count("drain"); }
		else if (kind == 2) { closePeer(); arm(rng); bool failed = false; std::string y(5000, 'x'); for (int i = 0; i < 200 && !failed; i++) { if (rng.chance(1, 2)) { bool b = true; s.write(&b, y.data(), y.size()); failed = !b; } else failed = throws<cybozu::Exception>([&] { s.write(y.data(), y.size()); }); } VF_CHECK(failed, "write-to-closed", d); count("broken-pipe"); }
		else if (kind == 3) { std::string got; size_t n = x.size(); std::thread th([&] { got = rawRead(peer, n + 1); closePeer(); }); arm(rng); s.write(x.data(), x.size()); s.waitForClose(); inj::off(); th.join(); VF_CHECK(got == x, "waitForClose-data", d); VF_CHECK(s.isValid(), "waitForClose-valid", d); bool b = true; s.write(&b, "a", 1); VF_CHECK(!b, "write-after-fin", d); count("waitForClose"); }
		else if (kind == 4) { rawWrite(peer, "z", 1); plain(); VF_CHECK(throws<cybozu::Exception>([&] { s.waitForClose(); }), "waitForClose-unexpected", d); }
		else { plain(); int e = rng.chance(1, 2) ? ECONNRESET : EIO; bool w = rng.chance(1, 2); rawWrite(peer, "abcdef", 6); inj::fail(w ? inj::Write : inj::Read, 0, e); uint64_t nf = inj::nFail; char b[4]; bool ok = true, t; if (w && rng.chance(1, 2)) { s.write(&ok, "abcd", 4); t = !ok; } else t = throws<cybozu::Exception>([&] { if (w) s.write("abcd", 4); else if (rng.chance(1, 2)) s.read(b, 4); else s.readSome(b, 4); }); if (inj::nFail > nf) { VF_CHECK(t, "error-reported", d); count("io-error"); } inj::off(); } }
	if (peer >= 0) bye(peer); fds.check(d); distinct(hashStr(d) ^ rng.s); evals();
}
VF_IOPART(time, 200, 2000, 25)
{
	std::string d; Fds fds; int peer = -1; int ms = 5 + rng.below(60);
	{ cybozu::Socket s; int kind = rng.below(5); d = fmt("kind %d %d ms", kind, ms); note(d);
		if (kind == 0) { if (!makePair(rng, s, peer, rng.below(4), d)) return; s.setReceiveTimeout(ms); double b = now(); char c; bool t = throws<cybozu::Exception>([&] { if (rng.chance(1, 2)) s.readSome(&c, 1); else s.read(&c, 1); }); double e = now() - b; VF_CHECK(t && e > ms * 0.8e-3 && e < 15, "receive-timeout", d + fmt(" took %g s", e)); rawWrite(peer, "q", 1); s.read(&c, 1); VF_EQ(c, 'q', "after-timeout", d); count("recv-timeout"); }
		else if (kind == 1) { if (!makePair(rng, s, peer, rng.below(4), d)) return; s.setSendTimeout(ms); std::string y(1 << 20, 'x'); bool t = false; double b = now(); for (int i = 0; i < 40 && !t; i++) t = throws<cybozu::Exception>([&] { s.write(y.data(), y.size()); }); VF_CHECK(t && now() - b < 20, "send-timeout", d); count("send-timeout"); }
		else if (kind == 2) { auto v = fdSet(); cybozu::Socket srv; if (!libBind(srv)) return; int fd = newFd(v); double b = now(); VF_CHECK(!srv.queryAccept(ms), "queryAccept-idle", d); double e = now() - b; VF_CHECK(e > ms * 0.8e-3 && e < 15, "queryAccept-wait", d + fmt(" took %g", e)); VF_EQ(srv.queryAcceptNoThrow(1), 0, "queryAcceptNoThrow-idle", d); peer = rawConnect(AF_INET, portOf(fd)); VF_CHECK(srv.queryAccept(10000), "queryAccept-ready", d); srv.accept(s); rawWrite(peer, "k", 1); char c = 0; s.read(&c, 1); VF_EQ(c, 'k', "accepted-data", d); VF_CHECK(!srv.queryAccept(1), "queryAccept-once", d); cybozu::Socket z; VF_CHECK(z.queryAcceptNoThrow(1) < 0 && throws<cybozu::Exception>([&] { z.queryAccept(1); }), "queryAccept-closed", d); count("queryAccept"); }
		else if (kind == 3) { if (!makePair(rng, s, peer, rng.below(4), d)) return; int r = rng.range(0, rng.chance(1, 2) ? 100000 : 2000000000), w = rng.range(0, rng.chance(1, 2) ? 100000 : 2000000000); s.setReceiveTimeout(r); s.setSendTimeout(w); int gr = s.getReceiveTimeout(), gw = s.getSendTimeout(); VF_CHECK(abs(gr - r) <= 12 && abs(gw - w) <= 12, "timeout-values", d + fmt(" set %d/%d got %d/%d", r, w, gr, gw)); int z = 4096 << rng.below(4); s.setReceiveBufferSize(z); s.setSendBufferSize(z * 2); int rb, sb; VF_CHECK((rb = s.getReceiveBufferSize()) >= z && (sb = s.getSendBufferSize()) >= z * 2 && rb <= z * 4 && sb <= z * 8, "buffer-sizes", d + fmt(" %d: %d %d", z, s.getReceiveBufferSize(), s.getSendBufferSize())); uint16_t on = rng.below(2), sec = rng.below(60); s.setLinger(on, sec); struct linger l = { 9, 9 }; s.getSocketOption(SO_LINGER, &l); VF_CHECK(!!l.l_onoff == !!on && (!on || l.l_linger == sec), "linger-value", d + fmt(" set %d/%d got %d/%d", on, sec, l.l_onoff, l.l_linger)); VF_EQ(s.getSocketOption(SO_TYPE), (int)SOCK_STREAM, "so-type", d); VF_CHECK(throws<cybozu::Exception>([&] { s.connect("127.0.0.1", portOf(peer), 1000); }) && s.isValid(), "connect-connected", d); rawWrite(peer, "v", 1); char c = 0; s.read(&c, 1); VF_EQ(c, 'v', "still-connected", d); VF_CHECK(s.shutdown(1, rng.chance(1, 2)), "shutdown", d); VF_EQ((int)__real_recv(peer, &c, 1, 0), 0, "shutdown-eof", d); cybozu::Socket z2; VF_CHECK(throws<cybozu::Exception>([&] { z2.shutdown(1); }) && !z2.shutdown(1, cybozu::DontThrow), "shutdown-closed", d); count("options"); }
		else { if (!makePair(rng, s, peer, rng.below(4), d)) return; bool abortive = rng.chance(1, 2); if (abortive) s.setLinger(1, 0); s.close(); char c; ssize_t r = __real_recv(peer, &c, 1, 0); VF_CHECK(abortive ? r < 0 && errno == ECONNRESET : r == 0, "linger-close", d + fmt(" abortive %d recv %zd", abortive, r)); count("linger"); } }
	if (peer >= 0) bye(peer); fds.check(d); distinct(hashStr(d)); evals();
}
VF_IOPART(fault, 2500, 40000, 25)
{
	Fds fds; std::string d; int kind = rng.below(8); d = fmt("kind %d", kind); note(d); uint16_t port = 0;
	if (kind < 3) { // failing connect: error, socket unusable-but-reusable, nothing leaked
		int l = rawListen(&port); if (l < 0) return; cybozu::Socket s; int hold = -1; int ms = rng.chance(1, 2) ? 0 : 3000; d += fmt(" ms %d", ms); bool must = true; plain(); uint64_t nf = inj::nFail;
		if (kind == 0) { __real_close(l); l = -1; hold = __real_socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (__real_bind(hold, (sockaddr *)&a, sizeof(a))) { __real_close(hold); return; } port = portOf(hold); d += " refused"; } else if (kind == 1) { int f = rng.below(3); inj::fail(f == 0 ? nt::Sock : f == 1 ? nt::Connect : nt::Select, 0, f == 0 ? EMFILE : ECONNREFUSED); nt::progress = true; d += fmt(" inject %d", f); must = f != 2; } else { nt::progress = true; if (rng.chance(1, 2)) nt::selZero = true; else { static const int E[] = { ECONNREFUSED, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, EPIPE }; nt::soErr = E[rng.below(6)]; } d += fmt(" sel0 %d err %d", nt::selZero, nt::soErr); must = false; }
		bool t = throws<cybozu::Exception>([&] { s.connect("127.0.0.1", port, ms); }); bool hit = inj::nFail > nf; inj::off(); if (hold >= 0) __real_close(hold); if (must && (hit || kind == 0)) VF_CHECK(t, "connect-error", d); if (kind == 2 && ms) VF_CHECK(t, "connect-not-established", d);
		if (t) { VF_CHECK(!s.isValid(), "connect-failed-valid", d); int l2 = l; if (l2 < 0) l2 = rawListen(&port); if (l2 >= 0) { VF_CHECK(!throws<cybozu::Exception>([&] { s.connect("127.0.0.1", port, rng.chance(1, 2) ? 0 : 3000); }) && s.isValid(), "reconnect", d); __real_close(l2); if (l2 == l) l = -1; } count("connect-failure"); }
		if (s.isValid()) { VF_CHECK(throws<cybozu::Exception>([&] { s.connect("127.0.0.1", port); }), "connect-twice", d); } if (l >= 0) __real_close(l); }
	else if (kind < 5) { cybozu::Socket s; int f = rng.below(4); plain(); inj::fail(f == 0 ? nt::Sock : f == 1 ? nt::Bind : f == 2 ? nt::Listen : nt::SetOpt, 0, f == 0 ? EMFILE : EADDRINUSE); uint64_t nf = inj::nFail; d += fmt(" bind inject %d", f); bool t = throws<cybozu::Exception>([&] { s.bind(0, cybozu::Socket::allowIPv4); }); bool hit = inj::nFail > nf; inj::off(); if (hit) { VF_CHECK(t, "bind-error", d); VF_CHECK(!s.isValid(), "bind-failed-valid", d); count("bind-failure"); } if (!libBind(s)) return; VF_CHECK(s.isValid(), "bind-again", d); Fds g; if (!libBind(s)) return; g.check(d + " rebind"); auto v = fdSet(); cybozu::Socket s2; if (!libBind(s2)) return; int fd = newFd(v); if (fd >= 0) { cybozu::Socket s3; VF_CHECK(throws<cybozu::Exception>([&] { s3.bind(portOf(fd), cybozu::Socket::allowIPv4); }) && !s3.isValid(), "bind-in-use", d); } }
	else { auto v = fdSet(); cybozu::Socket srv; if (!libBind(srv)) return; int fd = newFd(v); if (fd < 0) return; int p1 = rawConnect(AF_INET, portOf(fd)), p2 = rawConnect(AF_INET, portOf(fd)); cybozu::Socket c; cybozu::SocketAddr a; { plain(); static const int E[] = { EINVAL, ENOMEM, EBADF }; inj::fail(nt::Select, 0, E[rng.below(3)]); uint64_t nf = inj::nFail; bool no = rng.chance(1, 2), t; int q = 0; if (no) { q = srv.queryAcceptNoThrow(1); t = q < 0; } else t = throws<cybozu::Exception>([&] { srv.queryAccept(1); }); if (inj::nFail > nf) { VF_CHECK(t, "query-error", d + fmt(" nothrow %d %d", no, q)); count("query-failure"); } inj::off(); } srv.accept(c); rawWrite(p1, "1", 1); rawWrite(p2, "2", 1); char b = 0; c.read(&b, 1); VF_EQ(b, '1', "accept-order", d); bool wa = rng.chance(1, 2);
		if (kind == 5) { plain(); inj::fail(nt::Accept, 0, rng.chance(1, 2) ? EMFILE : ECONNABORTED); uint64_t nf = inj::nFail; bool t = throws<cybozu::Exception>([&] { if (wa) srv.accept(c, &a); else srv.accept(c); }); if (inj::nFail > nf) { VF_CHECK(t, "accept-error", d); count("accept-failure"); } inj::off(); }
		else if (kind == 6 && rng.chance(1, 2)) { plain(); nt::badAddr = true; bool t = throws<cybozu::Exception>([&] { srv.accept(c, &a); }); nt::badAddr = false; inj::off(); VF_CHECK(t && !c.isValid(), "accept-bad-address", d); count("accept-bad-address"); bye(p1); bye(p2); return; }
		if (kind != 5 || !c.isValid()) { Fds g; bool was = c.isValid(); if (wa) srv.accept(c, &a); else srv.accept(c); int df = inj::fdCount() - g.n; VF_EQ(df, was ? 0 : 1, "accept-reuse", d); b = 0; c.read(&b, 1); VF_EQ(b, '2', "accept-data", d); char z; if (was) VF_EQ((int)__real_recv(p1, &z, 1, 0), 0, "old-client-closed", d); if (wa) VF_EQ((int)a.getPort(), (int)portOf(p2), "accept-port", d); count("accept-reuse"); }
		bye(p1); bye(p2); }
	fds.check(d); distinct(hashStr(d)); evals();
}
VF_IOPART(own, 500, 15000, 25)
{
	// who owns which connection: random moves, closes and accepts over six sockets; every live connection still carries data, every dropped one is closed
	Fds base; std::string d; auto v = fdSet(); { cybozu::Socket srv; if (!libBind(srv)) return; int fd = newFd(v); if (fd < 0) return; uint16_t port = portOf(fd); const int N = 6; std::vector<std::unique_ptr<cybozu::Socket>> s(N); int own[N]; std::map<int, int> dead; for (int i = 0; i < N; i++) { s[i].reset(new cybozu::Socket); own[i] = -1; }
	std::set<int> peers; auto drop = [&](int i) { int p = own[i]; own[i] = -1; if (p < 0) return; char c; VF_EQ((int)__real_recv(p, &c, 1, 0), 0, "dropped-closed", d); bye(p); peers.erase(p); };
	for (int k = 4 + rng.below(30); k > 0; k--) { int i = rng.below(N), j = rng.below(N); int op = rng.below(7); d += fmt(" %d:%d,%d", op, i, j); switch (op) {
		case 0: case 1: { int p = rawConnect(AF_INET, port); if (p < 0) break; srv.accept(*s[i]); drop(i); own[i] = p; peers.insert(p); break; }
		case 2: if (i != j) { *s[i] = std::move(*s[j]); drop(i); own[i] = own[j]; own[j] = -1; } break;
		case 3: if (i != j) { s[i]->moveFrom(*s[j]); drop(i); own[i] = own[j]; own[j] = -1; } break;
		case 4: if (i != j) { drop(i == j ? i : ((s[i]->close(), i))); s[i].reset(new cybozu::Socket(std::move(*s[j]))); own[i] = own[j]; own[j] = -1; } break;
		case 5: VF_CHECK(s[i]->close(rng.chance(1, 2)), "close-result", d); drop(i); break;
		default: s[i].reset(new cybozu::Socket); drop(i); }
		for (int q = 0; q < N; q++) VF_CHECK(s[q]->isValid() == (own[q] >= 0), "ownership", d + fmt(" socket %d", q)); VF_EQ(inj::fdCount() - base.n - 1, (int)peers.size() * 2, "fd-census", d); int q = rng.below(N); if (own[q] >= 0) { std::string t = rng.bytes(8); rawWrite(own[q], t.data(), 8); Exact e(8); s[q]->read(e.p, 8); VF_CHECK(e.str() == t, "moved-connection", d); s[q]->write(t.data(), 8); VF_CHECK(rawRead(own[q], 8) == t, "moved-connection-back", d); } }
	for (int p : peers) bye(p); } base.check(d); count("ownership"); distinct(hashStr(d)); evals();
}
VF_IOPART(race, 400, 8000, 25)
{
	// one connection, several threads taking or closing it at the same moment: exactly one gets it, it is closed once
	Fds fds; std::string d; int peer = -1; { cybozu::Socket s, to[4]; if (!makePair(rng, s, peer, rng.below(4), d)) return; int n = 2 + rng.below(3), op[4]; for (int i = 0; i < n; i++) { op[i] = rng.below(2); d += fmt(" %s", op[i] ? "close" : "take"); } note(d); std::atomic<int> go(0); std::vector<std::thread> th; uint64_t bad = inj::badClose; for (int i = 0; i < n; i++) th.emplace_back([&, i] { go++; while (go < n) ; if (op[i]) s.close(cybozu::DontThrow); else to[i].moveFrom(s); }); for (auto& t : th) t.join(); int owners = s.isValid(); for (int i = 0; i < n; i++) owners += to[i].isValid(); VF_CHECK(owners <= 1 && !s.isValid(), "owners", d + fmt(" %d", owners)); int fd = inj::fdCount() - fds.n; VF_EQ(fd, 1 + owners, "race-fds", d); if (owners) { rawWrite(peer, "o", 1); for (int i = 0; i < n; i++) if (to[i].isValid()) { char c = 0; to[i].read(&c, 1); VF_EQ(c, 'o', "race-data", d); } count("race-taken"); } else { char c; VF_EQ((int)__real_recv(peer, &c, 1, 0), 0, "race-closed", d); count("race-closed"); } VF_EQ((uint64_t)inj::badClose, bad, "closed-twice", d); }
	if (peer >= 0) bye(peer); fds.check(d); distinct(rng.s); evals();
}
VF_PART(addr, 20000, 600000)
{
	auto rnd4 = [&] { std::string a(4, 0); for (auto& c : a) c = (char)rng.pick(std::vector<int>{ 0, 1, 127, 128, 255, (int)rng.below(256) }); return a; };
	auto rnd16 = [&] { std::string a(16, 0); int m = rng.below(4); if (m == 0) { a[10] = a[11] = (char)0xff; a.replace(12, 4, rnd4()); } else if (m == 1) { a.replace(12, 4, rnd4()); } else if (m == 2) { a = rng.bytes(16); } else { a[15] = 1; if (rng.chance(1, 2)) a[10] = (char)0xff; if (rng.chance(1, 3)) a[rng.below(10)] = 1, a[10] = a[11] = (char)0xff; } return a; };
	struct A { int fam; std::string raw; uint16_t port; cybozu::SocketAddr sa; }; A x[2]; std::string d;
	for (int i = 0; i < 2; i++) { A& a = x[i]; a.port = rng.chance(1, 3) ? rng.pick(std::vector<int>{ 0, 1, 80, 255, 256, 65535 }) : rng.below(65536); bool v6 = rng.chance(1, 2); std::string raw = v6 ? rnd16() : rnd4(); if (i == 1 && rng.chance(1, 2)) { const std::string& o = x[0].raw; if (x[0].fam == AF_INET6 && rng.chance(1, 2)) { v6 = false; raw = o.substr(12); } else if (x[0].fam == AF_INET && rng.chance(1, 2)) { v6 = true; raw = std::string(10, 0) + "\xff\xff" + o; if (rng.chance(1, 2)) raw[rng.below(16)] ^= 1 << rng.below(8); } else { v6 = x[0].fam == AF_INET6; raw = o; if (rng.chance(1, 2)) raw[rng.below(raw.size())] ^= 1 << rng.below(8); } } char b[64]; inet_ntop(v6 ? AF_INET6 : AF_INET, raw.data(), b, sizeof(b)); bool force = rng.chance(1, 3); d += fmt(" %s/%u force %d", b, a.port, force);
		long before = nt::infos; if (rng.chance(1, 2)) a.sa.set(b, a.port, force); else a.sa = cybozu::SocketAddr(b, a.port, force); VF_EQ(nt::infos, before, "addrinfo-leak", d); if (v6) { a.fam = AF_INET6; a.raw = raw; } else if (force) { a.fam = AF_INET6; a.raw = std::string(10, 0) + "\xff\xff" + raw; } else { a.fam = AF_INET; a.raw = raw; }
		if (v6 && !force && raw.compare(0, 12, std::string(10, 0) + "\xff\xff") == 0 && a.sa.getFamily() == AF_INET) { a.fam = AF_INET; a.raw = raw.substr(12); } // the resolver may turn a mapped address into IPv4
		inet_ntop(a.fam, a.raw.data(), b, sizeof(b)); VF_EQ(a.sa.getFamily(), a.fam, "family", d); VF_EQ(a.sa.getPort(), a.port, "port", d); VF_EQ(a.sa.toStr(), a.fam == AF_INET ? fmt("%s:%u", b, a.port) : fmt("[%s]:%u", b, a.port), "toStr", d); VF_EQ((size_t)a.sa.getSize(), a.fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6), "size", d); VF_EQ((int)a.sa.get()->sa_family, a.fam, "sockaddr-family", d); const char *p = a.fam == AF_INET ? (const char *)&((const sockaddr_in *)a.sa.get())->sin_addr : (const char *)&((const sockaddr_in6 *)a.sa.get())->sin6_addr; VF_CHECK(std::string(p, a.raw.size()) == a.raw, "sockaddr-bytes", d); }
	auto canon = [](const A& a) { return a.fam == AF_INET ? std::string(10, 0) + "\xff\xff" + a.raw : a.raw; }; bool same = canon(x[0]) == canon(x[1]); VF_EQ(x[0].sa.hasSameAddr(x[1].sa), same, "hasSameAddr", d); VF_EQ(x[1].sa.hasSameAddr(x[0].sa), same, "hasSameAddr-sym", d); count(same ? "same-addr" : "different-addr"); cybozu::SocketAddr n; VF_CHECK(!n.hasSameAddr(x[0].sa) && !x[0].sa.hasSameAddr(n) && n.getSize() == 0 && n.getFamily() == 0 && throws<cybozu::Exception>([&] { n.toStr(); }) && throws<cybozu::Exception>([&] { n.getPort(); }), "no-addr", d);
	if (rng.chance(1, 4)) { std::string bad = rng.pick(std::vector<std::string>{ "256.1.1.1", "1.2.3.4.5", "::g", "1::2::3", "x y", "", "[::1]" }); long before = nt::infos; VF_CHECK(throws<cybozu::Exception>([&] { x[0].sa.set(bad, 80, rng.chance(1, 2)); }), "bad-address", bad); VF_EQ(nt::infos, before, "addrinfo-leak-bad", bad); count("bad-addr"); }
	distinct(hashStr(d)); evals();
}
VF_IOPART(mode, 150, 4000, 15)
{
	Fds fds; std::string d; int mode = 1 + rng.below(3); if (!haveV6()) mode = 1; { auto v = fdSet(); cybozu::Socket srv; if (mode == 3 && rng.chance(1, 2)) { if (!libBind(srv, 3)) return; } else if (!libBind(srv, mode)) return; int fd = newFd(v); if (fd < 0) return; uint16_t port = portOf(fd); d = fmt("mode %d", mode);
		for (int fam : { AF_INET, AF_INET6 }) { if (fam == AF_INET6 && !haveV6()) continue; bool want = mode & (fam == AF_INET ? cybozu::Socket::allowIPv4 : cybozu::Socket::allowIPv6); int p = rawConnect(fam, port); if (p >= 0 && !want && !srv.queryAccept(50)) { __real_close(p); continue; /* somebody else's listener on the same port number */ } VF_EQ(p >= 0, want, "bind-mode", d + (fam == AF_INET ? " v4" : " v6")); if (p < 0) continue; cybozu::Socket c; cybozu::SocketAddr a; srv.accept(c, &a); cybozu::SocketAddr w(fam == AF_INET ? "127.0.0.1" : "::1", portOf(p)); VF_CHECK(a.hasSameAddr(w) && a.getPort() == portOf(p), "accept-address", d + " " + a.toStr()); VF_EQ(a.getFamily(), (mode & 2) ? AF_INET6 : AF_INET, "accept-family", d); __real_close(p); cybozu::Socket k; k.connect(cybozu::SocketAddr(fam == AF_INET ? "127.0.0.1" : "::1", port), rng.chance(1, 2) ? 0 : 3000); srv.accept(c); k.write("hi", 2); char b[2]; c.read(b, 2); VF_CHECK(!memcmp(b, "hi", 2), "family-data", d); count(fam == AF_INET ? "v4" : "v6"); } }
	fds.check(d); distinct(rng.s); evals();
}
VF_PART(manyfd, 2, 8)
{
	rlimit r; getrlimit(RLIMIT_NOFILE, &r); if (r.rlim_cur < 1200) { rlimit n = r; n.rlim_cur = std::min<rlim_t>(r.rlim_max, 1500); setrlimit(RLIMIT_NOFILE, &n); getrlimit(RLIMIT_NOFILE, &r); } if (r.rlim_cur < 1200) { count("fd-limit"); return; }
	std::vector<int> v; int z = open("/dev/null", O_RDONLY); for (;;) { int f = dup(z); if (f < 0) break; v.push_back(f); if (f >= 1030) break; } { cybozu::Socket s; s.bind(0, cybozu::Socket::allowIPv4); VF_CHECK(s.isValid(), "many-fds", ""); int q = s.queryAcceptNoThrow(1); VF_CHECK(q <= 0, "fd-above-set", fmt("%d", q)); count("large-fd"); } for (int f : v) close(f); close(z); evals(); distinct(idx);
}
