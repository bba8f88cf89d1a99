// C26: ssl::ClientSocket against a raw OpenSSL server behind a proxy that fragments, delays, cuts or corrupts the byte stream; signals interrupt the client.
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <thread>
#include <poll.h>
#include "common.hpp"
#include <cybozu/ssl.hpp>
#include <openssl/x509.h>
#include <openssl/evp.h>
#include <openssl/ec.h>
using namespace vf;
static SSL_CTX *serverCtx()
{
	static SSL_CTX *c = 0; if (c) return c; c = SSL_CTX_new(TLS_server_method()); EVP_PKEY *k = EVP_EC_gen("P-256"); X509 *x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), -86400); X509_gmtime_adj(X509_getm_notAfter(x), 864000); X509_set_pubkey(x, k); X509_NAME *n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char *)"localhost", -1, -1, 0); X509_set_issuer_name(x, n); X509_sign(x, k, EVP_sha256()); SSL_CTX_use_certificate(c, x); SSL_CTX_use_PrivateKey(c, k); X509_free(x); EVP_PKEY_free(k); SSL_CTX_set_mode(c, SSL_MODE_AUTO_RETRY); return c;
}
static int fdCount() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static void setT(int fd, int ms) { timeval t = { ms / 1000, ms % 1000 * 1000 }; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof(t)); setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof(t)); }
static int rawListen(uint16_t *port) { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(s, (sockaddr *)&a, sizeof(a)) || listen(s, 16)) { close(s); return -1; } socklen_t n = sizeof(a); getsockname(s, (sockaddr *)&a, &n); *port = ntohs(a.sin_port); return s; }
// proxy: a = client side, b = server side. Damages the server-to-client stream at offset `at`: mode 1 cut, 2 flip a bit, 3 reset the connection
struct Proxy { Rng g; int a, b; int frag; int mode; uint64_t at; uint64_t down = 0, up = 0; bool fired = false; int slow = 0;
	void run() {
		bool ea = false, eb = false; char buf[4096]; while (!ea || !eb) { pollfd p[2] = { { ea ? -1 : a, POLLIN, 0 }, { eb ? -1 : b, POLLIN, 0 } }; if (poll(p, 2, 30000) <= 0) break;
			for (int i = 0; i < 2; i++) if (p[i].revents) { size_t want = frag && g.chance(1, 2) ? 1 + g.below(frag) : sizeof(buf); ssize_t r = recv(i ? b : a, buf, want, 0); if (r <= 0) { (i ? eb : ea) = true; shutdown(i ? a : b, SHUT_WR); if (i == 0 && r < 0) { eb = true; } continue; }
				if (i) { if (mode && at >= down && at < down + r) { fired = true; if (mode == 1) { size_t k = at - down; send(a, buf, k, MSG_NOSIGNAL); shutdown(a, SHUT_WR); shutdown(b, SHUT_RDWR); return; } if (mode == 3) { size_t k = at - down; send(a, buf, k, MSG_NOSIGNAL); linger l = { 1, 0 }; setsockopt(a, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); shutdown(b, SHUT_RDWR); return; } buf[at - down] ^= 1 << g.below(8); } down += r; } else { up += r; if (slow && g.chance(1, 3)) usleep(slow); } size_t k = 0; while (k < (size_t)r) { ssize_t w = send(i ? a : b, buf + k, r - k, MSG_NOSIGNAL); if (w <= 0) { ea = eb = true; break; } k += w; } } }
		shutdown(a, SHUT_WR); shutdown(b, SHUT_WR); } };
// the client's descriptor: the one connected to the listening port
static int clientFd(uint16_t port) { for (int i = 0; i < 256; i++) { sockaddr_in a; socklen_t n = sizeof(a); if (getpeername(i, (sockaddr *)&a, &n) == 0 && a.sin_family == AF_INET && ntohs(a.sin_port) == port) return i; } return -1; }
struct Server { int fd; std::string down; size_t up; bool writeFirst, clean; int maxVer; uint64_t seed; std::string got; bool hs = false, eof = false; std::atomic<bool> rdone{ false };
	void run() {
		Rng g(seed); SSL *s = SSL_new(serverCtx()); SSL_set_fd(s, fd); SSL_set_max_proto_version(s, maxVer); if (SSL_accept(s) == 1) { hs = true; auto wr = [&] { size_t p = 0; while (p < down.size()) { size_t n = std::min<size_t>(down.size() - p, g.chance(1, 3) ? 1 + g.below(5) : 1 + g.below(20000)); if (SSL_write(s, &down[p], n) <= 0) return false; p += n; } return true; }; auto rd = [&] { got.resize(up); size_t p = 0; while (p < up) { int r = SSL_read(s, &got[p], up - p); if (r <= 0) break; p += r; } got.resize(p); rdone = true; };
			if (writeFirst) { wr(); rd(); } else { rd(); wr(); } if (clean) { SSL_shutdown(s); char c; int r = SSL_read(s, &c, 1); eof = r <= 0 && SSL_get_error(s, r) == SSL_ERROR_ZERO_RETURN; } }
		rdone = true; shutdown(fd, SHUT_RDWR); SSL_free(s); close(fd); ERR_clear_error(); } };
static void onSig(int) {}
static std::string exchange(Rng& rng, int damage)
{
	static bool init = false; if (!init) { struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onSig; sigaction(SIGUSR1, &sa, 0); init = true; serverCtx(); }
	uint16_t port; int l = rawListen(&port); if (l < 0) return ""; int before = fdCount(); std::string d; { int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) { close(l); return ""; } bool dm = damage != 0;
	bool narrow = !dm && rng.chance(1, 4); if (narrow) { int z = 4096; setsockopt(l, SOL_SOCKET, SO_RCVBUF, &z, sizeof(z)); z = 600; setsockopt(l, IPPROTO_TCP, TCP_MAXSEG, &z, sizeof(z)); } std::string up = dm ? std::string() : rng.bytes(narrow ? 200000 + rng.below(500000) : rng.chance(1, 5) ? rng.below(120000) : rng.len(3000)), down = rng.bytes(rng.chance(1, 5) ? rng.below(120000) : rng.len(3000)); Server sv; sv.fd = sp[1]; sv.down = down; sv.up = up.size(); sv.writeFirst = dm || rng.chance(1, 2); sv.clean = true; sv.maxVer = rng.chance(1, 2) ? TLS1_2_VERSION : TLS1_3_VERSION; sv.seed = rng.next(); int ending = dm ? 3 : rng.below(5); sv.clean = ending != 2 || dm;
	Proxy px{ Rng(rng.next()), -1, sp[0], !narrow && rng.chance(1, 2) ? (int)(1 + rng.below(40)) : 0, damage, rng.below(rng.chance(1, 2) ? 1500 : 1800 + down.size() + down.size() / 20) }; d = fmt("tls %x up %zu down %zu first %d frag %d damage %d@%llu ending %d narrow %d:", sv.maxVer, up.size(), down.size(), sv.writeFirst, px.frag, damage, (unsigned long long)px.at, ending, narrow); note(d);
	setT(sp[1], dm ? 400 : 15000); std::thread ts([&] { sv.run(); }); std::thread tp([&] { px.a = accept(l, 0, 0); if (px.a >= 0) { if (narrow) px.slow = 1500; int one = 1; setsockopt(px.a, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); px.run(); close(px.a); } close(px.b); });
	std::atomic<bool> stop(false); pthread_t me = pthread_self(); bool sig = rng.chance(1, narrow ? 1 : 3); std::thread tg; if (sig) tg = std::thread([&] { while (!stop) { usleep(300); pthread_kill(me, SIGUSR1); } });
	std::string got; bool conn = false, thrown = false, eof = false, closeThrow = false; try { cybozu::ssl::ClientSocket c; try { if (rng.chance(1, 2)) c.connect("127.0.0.1", port); else c.connect(cybozu::SocketAddr("127.0.0.1", port)); conn = true; bool stale = rng.chance(1, 3); if (stale) d += " stale-error"; auto st = [&] { if (stale) ERR_put_error(ERR_LIB_EVP, 0, 100, __FILE__, __LINE__); };
		auto wr = [&] { size_t p = 0; while (p < up.size()) { size_t n = std::min(1 + (rng.chance(1, 3) ? up.size() : rng.len(40000)), up.size() - p); Exact e(up.substr(p, n)); st(); c.write(e.p, n); VF_CHECK(e.str() == up.substr(p, n), "write-const", d); p += n; } };
		auto rd = [&] { while (got.size() < down.size()) { size_t left = down.size() - got.size(); st(); if (rng.chance(1, 2)) { size_t n = rng.chance(1, 3) ? left : std::min(left, 1 + rng.len(40000)); Exact e(n + 8, 0x5a); d += fmt(" r%zu", n); c.read(e.p, n); VF_CHECK(std::string(e.p + n, 8) == std::string(8, 0x5a), "read-excess", d); got.append(e.p, n); } else { size_t m = 1 + rng.len(40000); Exact e(m); size_t r = c.readSome(e.p, m); d += fmt(" s%zu=%zu", m, r); if (r == 0) { eof = true; break; } VF_CHECK(r <= m, "readSome-size", d); if (r > m) return; got.append(e.p, r); } } };
		if (sv.writeFirst) { rd(); wr(); } else { wr(); rd(); }
		if (!dm) while (!sv.rdone) usleep(100); // closing with unread input may reset the connection: wait until the peer has everything
		VF_CHECK(dm || (!eof && got == down), "received", d + fmt(" got %zu", got.size()));
		if (dm) { if (!eof) { char z; size_t r = c.readSome(&z, 1); VF_CHECK(r == 0, "extra-data", d); eof = true; } }
		else if (ending == 0) { char z[3]; st(); VF_EQ(c.readSome(z, 3), (size_t)0, "eof", d); VF_CHECK(throws<cybozu::Exception>([&] { c.read(z, 1); }), "read-past-end", d); try { c.close(); } catch (std::exception&) { closeThrow = true; } count("eof"); }
		else if (ending == 1) { try { c.close(); } catch (std::exception&) { closeThrow = true; } count("close"); }
		else if (ending == 4) { char z[3]; VF_EQ(c.readSome(z, 3), (size_t)0, "eof", d); count("destroyed-after-eof"); }
		else if (ending == 2) { char z; bool t = throws<cybozu::Exception>([&] { if (c.readSome(&z, 1) == 0) eof = true; }); VF_CHECK(t && !eof, "truncation-undetected", d); count("truncated"); }
		} catch (cybozu::Exception& e) { // after an error close still gives the descriptor back
			thrown = true; d += std::string(" threw ") + e.what(); if (rng.chance(1, 2)) { if (rng.chance(1, 2)) c.close(true); else try { c.close(); } catch (cybozu::Exception&) {} VF_EQ(clientFd(port), -1, "descriptor-after-close", d); count("close-after-error"); } }
	} catch (cybozu::Exception& e) { thrown = true; d += std::string(" threw ") + e.what(); }
	stop = true; if (sig) tg.join(); if (!conn && !dm) { } tp.join(); ts.join(); close(l);
	if (!dm && sig && !conn && d.find("Interrupted system call") != std::string::npos) count("connect-interrupted"); // connect(2) itself may report the signal: nothing was promised about that
	else if (!dm) { VF_CHECK(conn && !thrown, "unexpected-error", d); VF_CHECK(!closeThrow, "close-error", d); VF_CHECK(sv.got == up, "server-received", d + fmt(" server got %zu", sv.got.size())); if (ending == 0 || ending == 4) VF_CHECK(sv.eof, "close-notify", d); count("narrow", narrow); count("exchange"); count("bytes", up.size() + down.size()); count("interrupted", sig); }
	else { VF_CHECK(got.size() <= down.size() && !memcmp(got.data(), down.data(), got.size()), "corrupt-data-delivered", d); if (px.fired) { VF_CHECK(thrown || (damage == 2 && got == down), "damage-undetected", d + fmt(" got %zu", got.size())); count(conn ? "damaged-stream" : "damaged-handshake"); } else VF_CHECK(got == down, "undamaged", d); }
	} int after = fdCount(); VF_CHECK(after == before - 1, "fd-leak", d + fmt(" %d -> %d", before, after)); distinct(hashStr(d)); if (wantSample()) sample(d.substr(0, 300)); evals(); return d;
}
VF_IOPART(exchange, 480, 12000, 25) { exchange(rng, 0); }
VF_IOPART(damage, 320, 8000, 25) { exchange(rng, 1 + rng.below(3)); }
VF_IOPART(refuse, 80, 400, 10)
{
	int b = fdCount(); uint16_t port; int l = rawListen(&port); if (l < 0) return; int kind = rng.below(2); if (kind == 0) { close(l); l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof(a); if (bind(l, (sockaddr *)&a, n) || getsockname(l, (sockaddr *)&a, &n)) { close(l); return; } port = ntohs(a.sin_port); /* bound, not listening */ VF_CHECK(throws<cybozu::Exception>([&] { cybozu::ssl::ClientSocket c; c.connect("127.0.0.1", port); }), "refused", ""); close(l); }
	else { std::string junk = rng.bytes(1 + rng.below(300)); std::thread t([&] { int s = accept(l, 0, 0); char z[2000]; recv(s, z, sizeof(z), 0); send(s, junk.data(), junk.size(), MSG_NOSIGNAL); shutdown(s, SHUT_WR); recv(s, z, sizeof(z), 0); close(s); }); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::ssl::ClientSocket c; c.connect("127.0.0.1", port); }), "not-a-tls-server", hex(junk)); t.join(); close(l); }
	{ cybozu::ssl::ClientSocket unused; unused.close(); } VF_EQ(fdCount(), b, "fd-leak-refused", fmt("kind %d", kind)); count("refused"); distinct(rng.s); evals();
}

// one client object used for several connections, good and bad ones, closed or abandoned in between
VF_IOPART(reuse, 80, 2000, 25)
{
	static bool init = false; if (!init) { init = true; serverCtx(); } int before = fdCount(); std::string d; std::vector<std::thread> th; std::vector<std::unique_ptr<Server>> sv; std::vector<int> ls; int good = 0;
	try { cybozu::ssl::ClientSocket c; int n = 2 + rng.below(3); for (int k = 0; k < n; k++) { uint16_t port; int l = rawListen(&port); if (l < 0) continue; int kind = k == n - 1 ? 2 : rng.below(4); std::string junk = kind == 1 ? rng.bytes(1 + rng.below(300)) : ""; d += fmt(" %d", kind);
		if (kind == 0) { close(l); VF_CHECK(throws<cybozu::Exception>([&] { c.connect("127.0.0.1", port); }), "reuse-refused", d); }
		else if (kind == 1) { std::thread t([&] { int s = accept(l, 0, 0); char z[2000]; recv(s, z, sizeof(z), 0); send(s, junk.data(), junk.size(), MSG_NOSIGNAL); shutdown(s, SHUT_WR); setT(s, 2000); recv(s, z, sizeof(z), 0); close(s); }); VF_CHECK(throws<cybozu::Exception>([&] { c.connect("127.0.0.1", port); }), "reuse-not-tls", d); t.join(); close(l); }
		else { Server *p = new Server; sv.emplace_back(p); p->down = rng.bytes(rng.len(3000)); std::string up = rng.bytes(1 + rng.len(3000)); p->up = up.size(); p->writeFirst = rng.chance(1, 2); p->clean = true; p->maxVer = rng.chance(1, 2) ? TLS1_2_VERSION : TLS1_3_VERSION; p->seed = rng.next(); th.emplace_back([p, l] { p->fd = accept(l, 0, 0); setT(p->fd, 10000); p->run(); }); ls.push_back(l);
			try { c.connect("127.0.0.1", port); c.write(up.data(), up.size()); Exact e(p->down.size()); c.read(e.p, p->down.size()); VF_CHECK(e.str() == p->down, "reuse-received", d); while (!p->rdone) usleep(100); VF_CHECK(p->got == up, "reuse-sent", d); bool fin = rng.chance(1, 2); if (fin) { char z; VF_EQ(c.readSome(&z, 1), (size_t)0, "reuse-eof", d); } d += fmt(" eof%d", fin); } catch (cybozu::Exception& e) { vf::report("reuse-connection", d + " threw " + e.what()); break; } good++; }
		int fin = kind == 0 ? rng.below(3) : 1 + rng.below(2); d += fmt(" close%d", fin); if (fin == 1) try { c.close(); } catch (cybozu::Exception& e) { VF_CHECK(kind < 2, "reuse-close", d + e.what()); } else if (fin == 2) c.close(true); } } catch (Violation& v) { vf::report(v.key, v.detail); }
	for (int l : ls) shutdown(l, SHUT_RDWR); for (auto& t : th) t.join(); for (int l : ls) close(l); VF_EQ(fdCount(), before, "reuse-fd-leak", d); count("reused", good); distinct(hashStr(d) ^ rng.s); evals();
}
