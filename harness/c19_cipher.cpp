// C19: crypto::Cipher vs a block-level reference (AES_encrypt + textbook CBC/ECB/PKCS7).
#define OPENSSL_SUPPRESS_DEPRECATED
#include <stdint.h>
#include <string.h>
#include <memory>
#include <openssl/aes.h>
#include <openssl/err.h>
#include <cybozu/crypto.hpp>
#include "common.hpp"
using namespace vf; using cybozu::crypto::Cipher;
static std::string refEnc(const std::string& key, const std::string& iv, const std::string& m, bool cbc) { AES_KEY k; AES_set_encrypt_key((const uint8_t *)key.data(), (int)key.size() * 8, &k); std::string o; uint8_t prev[16]; if (cbc) memcpy(prev, iv.data(), 16); for (size_t i = 0; i + 16 <= m.size(); i += 16) { uint8_t b[16]; memcpy(b, m.data() + i, 16); if (cbc) for (int j = 0; j < 16; j++) b[j] ^= prev[j]; AES_encrypt(b, prev, &k); o.append((char *)prev, 16); } return o; }
static std::string refDec(const std::string& key, const std::string& iv, const std::string& m, bool cbc) { AES_KEY k; AES_set_decrypt_key((const uint8_t *)key.data(), (int)key.size() * 8, &k); std::string o; uint8_t prev[16]; if (cbc) memcpy(prev, iv.data(), 16); for (size_t i = 0; i + 16 <= m.size(); i += 16) { uint8_t b[16]; AES_decrypt((const uint8_t *)m.data() + i, b, &k); if (cbc) for (int j = 0; j < 16; j++) b[j] ^= prev[j]; memcpy(prev, m.data() + i, 16); o.append((char *)b, 16); } return o; }
// feed m in random chunks; also forks a copy of the object midway
static std::string feed(Rng& g, Cipher& c, const std::string& m, const std::string& d, std::unique_ptr<Cipher> *fork = 0, size_t *forkAt = 0, std::string *forkOut = 0)
{
	std::string out; size_t p = 0; int style = g.below(4); while (p < m.size()) { size_t n = style == 0 ? m.size() : style == 1 ? 1 + g.below(4) : style == 2 ? 15 + g.below(3) : m.size() > 5000 ? 1 + g.below(m.size()) : 1 + g.below(70); if (m.size() > 5000 && (style == 1 || style == 2)) n += g.below(m.size() / 50); n = std::min(n, m.size() - p); Exact in(m.substr(p, n)), o(n + 16); int r = c.update(o.p, in.p, (int)n); VF_CHECK(r >= 0 && (size_t)r <= n + 16, "update", d + fmt(" r=%d", r)); out.append(o.p, r); p += n; count("update"); if (g.chance(1, 10)) { Cipher& self = c; c = self; count("self-assign"); } if (g.chance(1, 12)) { Cipher t((Cipher::Name)g.below(6)); t = c; c = t; count("assign-back"); } if (fork && !*fork && g.chance(1, 4)) { fork->reset(new Cipher(c)); *forkAt = p; *forkOut = out; } } return out;
}
VF_PART(aes, 12000, 500000)
{
	int k = idx % 6; bool cbc = k < 3, pad = rng.chance(1, 2); const size_t ks = 16 + 8 * (k % 3); Cipher::Name nm = (Cipher::Name)(cbc ? Cipher::N_AES128_CBC + k : Cipher::N_AES128_ECB + k - 3); VF_EQ(Cipher::getSize(nm), ks * 8, "size", ""); Cipher e(nm), dcd(nm); int rounds = 1 + rng.below(3);
	for (int r = 0; r < rounds; r++) {
		std::string key = rng.bytes(ks), iv = rng.bytes(cbc ? 16 : rng.below(2) * 16), m = rng.bytes(rng.chance(2, 3) ? 16 * rng.upto(8) : rng.upto(130)); std::string d = fmt("aes%zu %s pad %d len %zu round %d", ks * 8, cbc ? "cbc" : "ecb", pad, m.size(), r); note(d); distinct(hashStr(m) ^ mix(hashStr(key))); if (wantSample()) sample(d);
		std::string full = m; if (pad) { size_t n = 16 - m.size() % 16; full.append(n, (char)n); } const std::string want = refEnc(key, iv, full, cbc); std::unique_ptr<Cipher> fk; size_t at = 0; std::string fo;
		e.setup(Cipher::Encoding, key, iv, pad); std::string c = feed(rng, e, m, d, &fk, &at, &fo); { Exact o(32); int f = e.finalize(o.p); if (pad) { VF_CHECK(f >= 0, "enc-final", d); c.append(o.p, f); } else if (m.size() % 16) { VF_CHECK(f == -1, "enc-final-partial", d); count("partial"); } else VF_CHECK(f == 0, "enc-final", d); } VF_CHECK(c == want, "encrypt", d + " got " + hex(c) + " want " + hex(want)); count("encrypt");
		if (fk) { std::string c2 = fo + feed(rng, *fk, m.substr(at), d); Exact o(32); int f = fk->finalize(o.p); if (f > 0) c2.append(o.p, f); VF_CHECK(c2 == want, "copy", d + fmt(" copied at %zu", at)); count("copy"); Cipher z((Cipher::Name)rng.below(6)); z = *fk; z.setup(Cipher::Encoding, key, iv, pad); VF_CHECK(feed(rng, z, m, d) == want.substr(0, m.size() / 16 * 16), "assigned", d); }
		// decrypt, intact or corrupted
		std::string x = want; bool bad = rng.chance(1, 3); if (bad && !x.empty()) x[rng.below(x.size())] ^= (char)(1 << rng.below(8)); if (bad && rng.chance(1, 3)) x = x.substr(0, rng.below(x.size() + 1)); std::string plain = refDec(key, iv, x, cbc); dcd.setup(Cipher::Decoding, key, iv, pad); std::string p = feed(rng, dcd, x, d); Exact o(32); int f = dcd.finalize(o.p);
		if (!pad) { VF_CHECK(p == plain, "decrypt", d + " got " + hex(p)); VF_EQ(f, x.size() % 16 ? -1 : 0, "dec-final", d); }
		else { size_t n = plain.empty() ? 0 : (uint8_t)plain.back(); bool ok = !plain.empty() && x.size() % 16 == 0 && n >= 1 && n <= 16; for (size_t i = 0; ok && i < n; i++) if ((uint8_t)plain[plain.size() - 1 - i] != n) ok = false; if (ok) { VF_CHECK(f >= 0, "dec-final-pad", d); p.append(o.p, f); VF_CHECK(p == plain.substr(0, plain.size() - n), "decrypt-pad", d); count("unpad"); } else { VF_CHECK(f == -1, "dec-badpad", d + fmt(" f=%d", f)); count("badpad"); } }
		if (!bad) { VF_CHECK(pad ? p == m : p == m.substr(0, m.size() / 16 * 16), "roundtrip", d); count("roundtrip"); } evals(); ERR_clear_error();
	}
	size_t bk = rng.below(40); if (bk != ks) { std::string key = rng.bytes(bk), iv = rng.bytes(16); VF_CHECK(throws<cybozu::Exception>([&] { e.setup(Cipher::Encoding, key, iv); }), "keylen", fmt("%zu", bk)); count("keylen"); }
	if (cbc) { std::string key = rng.bytes(ks), iv = rng.bytes(rng.below(16)); iv.shrink_to_fit(); VF_CHECK(throws<cybozu::Exception>([&] { e.setup(Cipher::Encoding, key, iv); }), "ivlen", fmt("%zu", iv.size())); count("ivlen"); }
}
VF_LONG(longaes, aes, 240, 9000, 300000)
