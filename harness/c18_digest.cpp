// C18: digests, HMAC, SipHash and FNV vs independent references.
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <assert.h>
#include <memory>
#include <string>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <cybozu/endian.hpp>
#include <cybozu/sha2.hpp>
#include <cybozu/sha1.hpp>
#include <cybozu/crypto.hpp>
#include <cybozu/siphash.hpp>
#include <cybozu/hash.hpp>
#include "common.hpp"
using namespace vf;
static std::string md(const char *name, const void *p, size_t n) { EVP_MD_CTX *c = EVP_MD_CTX_new(); unsigned char o[64]; unsigned l = 0; EVP_DigestInit_ex(c, EVP_get_digestbyname(name), 0); EVP_DigestUpdate(c, p, n); EVP_DigestFinal_ex(c, o, &l); EVP_MD_CTX_free(c); return std::string((char *)o, l); }
static std::string md(const char *n, const std::string& s) { return md(n, s.data(), s.size()); }
static size_t dlen(Rng& g) { size_t k; if (g.grow(&k)) return k; switch (g.below(5)) { case 0: return 64 * g.below(5) + g.below(3); case 1: return 64 * (1 + g.below(5)) - 1 - g.below(18); case 2: return 128 * g.below(4) + 105 + g.below(26); case 3: return g.below(20); default: return g.below(1500); } }
// cut s into exact-size chunks; f gets every chunk
template<class F> static void chunks(Rng& g, const std::string& s, F f) { size_t p = 0; int style = g.below(4); while (p < s.size()) { size_t n = style == 0 ? s.size() - p : style == 1 ? 1 + g.below(s.size() > 9000 ? 3000 : 5) : style == 2 ? (s.size() > 9000 ? 64 * g.below(90) : 0) + 63 + g.below(3) : 1 + g.below(s.size() > 9000 ? s.size() : 140); if (g.chance(1, 12)) n = 0; n = std::min(n, s.size() - p); Exact e(s.substr(p, n)); f(e.p, n); p += n; } }
static const char *const names[] = { "sha1", "sha224", "sha256", "sha384", "sha512" };
#ifndef VF_BIG
template<class S> static void sha2(Rng& g, const char *name, size_t outSize)
{
	S h; std::unique_ptr<S> cp; std::string cpre; int rounds = 1 + g.below(3);
	for (int r = 0; r < rounds; r++) {
		std::string m = g.bytes(dlen(g)), tail = g.bytes(g.chance(1, 2) ? 0 : dlen(g)); std::string d = fmt("%s len %zu+%zu round %d", name, m.size(), tail.size(), r); size_t done = 0, forkAt = g.chance(1, 3) ? g.below(m.size() + 1) : ~size_t(0); note(d); distinct(mix(hashStr(m) ^ (uintptr_t)name ^ hashStr(tail)));
		if (wantSample()) sample(d); chunks(g, m, [&](const char *p, size_t n) { if (g.chance(1, 4)) h.update(std::string(p, n)); else h.update(p, n); done += n; if (done >= forkAt) { forkAt = ~size_t(0); if (!cp) { cp.reset(new S(h)); cpre = m.substr(0, done); } else { *cp = h; cpre = m.substr(0, done); S& self = *cp; *cp = self; } } });
		const std::string want = md(name, m + tail); Exact t(tail); std::string got; int way = g.below(3);
		if (way == 0) got = h.digest(t.p, t.n); else if (way == 1) got = h.digest(tail); else { size_t sz = g.below(outSize); Exact small(sz); VF_CHECK(h.digest(small.p, sz, tail.data(), tail.size()) == 0, "digest-small", d); Exact o(outSize); size_t n = h.digest(o.p, o.n, t.p, t.n); VF_CHECK(n == outSize, "digest-size", d); got = o.str(); count("raw"); }
		VF_CHECK(got == want, "digest", d + " got " + hex(got) + " want " + hex(want)); h.clear(); evals(); count("sha2");
	}
	if (cp) { std::string x = g.bytes(dlen(g)); VF_CHECK(cp->digest(x) == md(name, cpre + x), "copy", std::string(name) + fmt(" copied after %zu bytes", cpre.size())); count("copy"); }
}
VF_PART(sha2, 4000, 120000) { if (idx & 1) sha2<cybozu::Sha256>(rng, "sha256", 32); else sha2<cybozu::Sha512>(rng, "sha512", 64); }
VF_PART(sha1, 2500, 80000)
{
	cybozu::Sha1 h; int rounds = 1 + rng.below(3);
	for (int r = 0; r < rounds; r++) { std::string m = rng.bytes(dlen(rng)), tail = rng.bytes(rng.chance(1, 2) ? 0 : dlen(rng)); std::string d = fmt("sha1 len %zu+%zu round %d", m.size(), tail.size(), r); distinct(hashStr(m) ^ mix(hashStr(tail))); chunks(rng, m, [&](const char *p, size_t n) { if (rng.chance(1, 4)) h.update(std::string(p, n)); else h.update(p, n); if (rng.chance(1, 20)) { cybozu::Sha1 c(h); h = c; } }); const std::string want = md("sha1", m + tail); std::string got; Exact t(tail); if (tail.empty() && rng.chance(1, 2)) got = h.digest(); else if (rng.chance(1, 2)) got = h.digest(tail); else got = h.digest(t.p, t.n); VF_CHECK(got == want, "sha1", d + " got " + hex(got)); std::string x; for (unsigned char c : want) x += fmt("%02x", c); Exact o(20); h.get(o.p); VF_CHECK(h.get() == want && o.str() == want && h.toString() == x, "sha1-get", d); evals(); count("sha1"); }
}
VF_PART(wrapper, 4000, 120000)
{
	using cybozu::crypto::Hash; Hash::Name nm = (Hash::Name)(idx % 5); const char *name = names[nm]; Hash h(nm); std::string s = name; VF_CHECK(Hash::getName(s) == nm && s == Hash::getName(nm), "name", s); const size_t sz = md(name, "").size(); VF_EQ(Hash::getSize(nm), sz, "size", s); std::unique_ptr<Hash> cp; std::string pre;
	for (int r = 1 + rng.below(3); r > 0; r--) {
		std::string m = rng.bytes(dlen(rng)), tail = rng.bytes(rng.chance(1, 2) ? 0 : dlen(rng)); std::string d = s + fmt(" len %zu+%zu", m.size(), tail.size()); distinct(mix(hashStr(m) ^ nm)); size_t done = 0; chunks(rng, m, [&](const char *p, size_t n) { if (rng.chance(1, 4)) h.update(std::string(p, n)); else h.update(p, n); done += n; if (rng.chance(1, 10)) { if (!cp) cp.reset(new Hash(h)); else { *cp = h; } pre = m.substr(0, done); } });
		if (rng.chance(1, 8)) { h.reset(); m.clear(); count("reset"); }
		Exact t(tail); std::string got; switch (rng.below(3)) { case 0: got = h.digest(t.p, t.n); break; case 1: got = h.digest(tail); break; default: { Exact o(sz); h.digest(o.p, t.p, t.n); got = o.str(); } } VF_CHECK(got == md(name, m + tail), "hash", d + " got " + hex(got));
		VF_CHECK(Hash::digest(nm, m) == md(name, m), "oneshot", d); { Exact o(sz); VF_CHECK(Hash::digest(o.p, nm, t.p, t.n) == sz && o.str() == md(name, tail), "oneshot-raw", d); } VF_CHECK(Hash::digest(nm, t.p, t.n) == md(name, tail), "oneshot", d); evals(); count("hash");
	}
	if (cp) { VF_CHECK(cp->digest() == md(name, pre), "hash-copy", s); count("hash-copy"); Hash::Name n2 = (Hash::Name)rng.below(5); Hash o(n2); o.update("junk"); o = *cp; std::string m = rng.bytes(dlen(rng)); VF_CHECK(o.digest(m) == md(name, m), "hash-assign", s); for (int k = 0; k < 2; k++) { o.update(m); if (k && rng.chance(1, 2)) { o.reset(); o.update(m); } VF_CHECK(o.digest(s) == md(name, m + s), "hash-assign-again", s); } }
	if (rng.chance(1, 10)) VF_CHECK(throws<cybozu::Exception>([&] { Hash::getName("md" + s); }), "badname", s);
}
static std::string refHmac(const char *name, const std::string& key, const std::string& m) { size_t B = !strcmp(name, "sha384") || !strcmp(name, "sha512") ? 128 : 64; std::string k = key.size() > B ? md(name, key) : key; k.resize(B, 0); std::string a = k, b = k; for (size_t i = 0; i < B; i++) { a[i] ^= 0x36; b[i] ^= 0x5c; } return md(name, b + md(name, a + m)); }
VF_PART(hmac, 4000, 150000)
{
	std::string key = rng.bytes(rng.chance(1, 2) ? 60 + rng.below(10) : rng.chance(1, 3) ? 124 + rng.below(9) : rng.upto(200)), m = rng.bytes(dlen(rng)); std::string d = fmt("key %zu msg %zu", key.size(), m.size()); distinct(hashStr(key) ^ mix(hashStr(m))); Exact ek(key), em(m), o(32); cybozu::hmac256(o.p, ek.p, ek.n, em.p, em.n); VF_CHECK(o.str() == refHmac("sha256", key, m), "hmac256", d + " got " + hex(o.str())); VF_CHECK(ek.str() == key && em.str() == m, "hmac-inputs", d);
	int k = idx % 5; cybozu::crypto::Hmac h((cybozu::crypto::Hash::Name)k); VF_CHECK(h.eval(key, m) == refHmac(names[k], key, m), "hmac", std::string(names[k]) + " " + d); VF_CHECK(h.eval(m, key) == refHmac(names[k], m, key), "hmac", std::string(names[k]) + " swapped " + d); count("hmac"); evals();
}
static uint64_t rotl(uint64_t x, int n) { return x << n | x >> (64 - n); }
static uint64_t refSip(const std::string& s, uint64_t k0, uint64_t k1)
{
	uint64_t v[4] = { k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull }; auto R = [&] { v[0] += v[1]; v[1] = rotl(v[1], 13) ^ v[0]; v[0] = rotl(v[0], 32); v[2] += v[3]; v[3] = rotl(v[3], 16) ^ v[2]; v[0] += v[3]; v[3] = rotl(v[3], 21) ^ v[0]; v[2] += v[1]; v[1] = rotl(v[1], 17) ^ v[2]; v[2] = rotl(v[2], 32); };
	std::string p = s; while (p.size() % 8 != 7) p += '\0'; p += (char)s.size(); for (size_t i = 0; i < p.size(); i += 8) { uint64_t m = 0; for (int j = 7; j >= 0; j--) m = m << 8 | (uint8_t)p[i + j]; v[3] ^= m; R(); R(); v[0] ^= m; } v[2] ^= 0xff; R(); R(); R(); R(); return v[0] ^ v[1] ^ v[2] ^ v[3];
}
VF_PART(sip, 20000, 800000)
{
	std::string m = rng.bytes(rng.chance(1, 10) ? 250 + rng.below(20) : rng.upto(70)); uint64_t a = rng.next(), b = rng.next(); std::string d = "msg " + hex(m); Exact e(m); distinct(hashStr(m)); VF_CHECK(cybozu::siphash24(e.p, e.n, a, b) == refSip(m, a, b), "siphash", d); VF_CHECK(cybozu::siphash24(e.p, e.n) == refSip(m, 0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull), "siphash-default", d); count("siphash");
	if (idx == 0) { std::string t; for (int i = 0; i < 15; i++) t += (char)i; VF_CHECK(cybozu::siphash24(t.data(), 15) == 0xa129ca6149be45e5ull, "siphash-vector", "paper"); }
	const uint8_t *p = (const uint8_t *)e.p; uint32_t v = 0, x = 2166136261u; uint64_t w = 0, y = 14695981039346656037ull; if (rng.chance(1, 2)) { v = x = (uint32_t)a | 1; w = y = b | 1; } for (size_t i = 0; i < m.size(); i++) { x = (x ^ p[i]) * 16777619u; y = (y ^ p[i]) * 1099511628211ull; } y ^= y >> 32; VF_CHECK(cybozu::hash32(p, p + m.size(), v) == x && cybozu::hash32(p, m.size(), v) == x, "fnv32", d); VF_CHECK(cybozu::hash64(p, p + m.size(), w) == y && cybozu::hash64(p, m.size(), w) == y, "fnv64", d);
	std::vector<uint16_t> u(m.begin(), m.end()); std::string bl(m); x = 2166136261u; for (auto c : u) { x ^= c; x *= 16777619u; } VF_EQ(cybozu::hash32(u.begin(), u.end()), x, "fnv32-wide", d); count("fnv"); evals();
}
VF_LONG(longsha2, sha2, 60, 2000, 2000000)
VF_LONG(longsha1, sha1, 40, 1000, 1000000)
VF_LONG(longwrapper, wrapper, 80, 2000, 2000000)
VF_LONG(longhmac, hmac, 80, 2000, 3000000)
VF_LONG(longsip, sip, 80, 2000, 2000000)
#else
// message lengths whose bit count needs more than 32 bits
static void big(uint64_t total, Rng& rng)
{
	std::vector<char> b(1 << 20); for (auto& c : b) c = (char)rng.next(); cybozu::Sha256 a; cybozu::Sha512 c; cybozu::Sha1 s; EVP_MD_CTX *x[3]; const char *nm[] = { "sha256", "sha512", "sha1" }; for (int i = 0; i < 3; i++) { x[i] = EVP_MD_CTX_new(); EVP_DigestInit_ex(x[i], EVP_get_digestbyname(nm[i]), 0); }
	uint64_t left = total; while (left) { size_t n = (size_t)std::min<uint64_t>(left, b.size() - rng.below(100)); a.update(b.data(), n); c.update(b.data(), n); s.update(b.data(), n); for (int i = 0; i < 3; i++) EVP_DigestUpdate(x[i], b.data(), n); left -= n; vf::tickSeq()++; }
	std::string got[3] = { a.digest(""), c.digest(""), s.digest("") }; for (int i = 0; i < 3; i++) { unsigned char o[64]; unsigned l; EVP_DigestFinal_ex(x[i], o, &l); EVP_MD_CTX_free(x[i]); VF_CHECK(got[i] == std::string((char *)o, l), "big-digest", std::string(nm[i]) + fmt(" %llu bytes", (unsigned long long)total)); count("big"); evals(); distinct(i + total); }
}
VF_PART(big, 2, 4) { big(idx == 0 ? (1ull << 29) - 1 - rng.below(70) : idx == 1 ? (1ull << 29) + rng.below(1 << 20) : idx == 2 ? (1ull << 32) + rng.below(1 << 20) : (1ull << 32) + (1ull << 30) + rng.below(99), rng); }
#endif
