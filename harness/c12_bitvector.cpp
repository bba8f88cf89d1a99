// C12: BitVector vs std::vector<bool> model.
#include <stdint.h>
#include <cybozu/bitvector.hpp>
#include "common.hpp"
using namespace vf;
typedef std::vector<bool> M;
static std::string show(const M& m) { std::string s; for (bool b : m) s += b ? '1' : '0'; if (s.size() > 120) s = s.substr(0, 120) + "..."; return s; }
template<class T> static std::vector<T> pack(const M& m, size_t n, Rng& g) { const size_t U = sizeof(T) * 8; std::vector<T> v(n); for (auto& x : v) x = (T)g.next(); for (size_t i = 0; i < m.size(); i++) if (m[i]) v[i / U] |= T(T(1) << (i % U)); else v[i / U] &= T(~(T(1) << (i % U))); return v; }
template<class T> static M rnd(Rng& g, size_t n) { M m(n); int k = g.below(4); for (size_t i = 0; i < n; i++) m[i] = k == 0 ? g.chance(1, 2) : k == 1 ? true : k == 2 ? g.chance(1, 10) : g.chance(9, 10); return m; }
static size_t g_scale; // > 0: long vectors
template<class T> static size_t blen(Rng& g) { const size_t U = sizeof(T) * 8; if (g_scale) { size_t n = U * (size_t(1) << g.below(20)); while (n > g_scale) n /= 2; return n + g.below(3 * U) - (n > U ? g.below(U) : 0) + (g.chance(1, 2) ? g.below(n) : 0); } switch (g.below(4)) { case 0: return g.below(U + 2); case 1: return U * g.below(4) + g.below(3); case 2: return U * (1 + g.below(4)) - g.below(3); default: return g.below(U * 5); } }
template<class T> static void same(const cybozu::BitVectorT<T>& v, const M& m, const std::string& d)
{
	const size_t U = sizeof(T) * 8; VF_EQ(v.size(), m.size(), "size", d); VF_EQ(v.getBlockSize(), (m.size() + U - 1) / U, "blocks", d); for (size_t i = 0; i < m.size(); i++) VF_CHECK(v.get(i) == (bool)m[i], "bit", d + fmt(" bit %zu of %zu model ", i, m.size()) + show(m));
	VF_CHECK(throws<cybozu::Exception>([&] { v.get(m.size()); }), "get-range", d);
	// same content built another way compares equal
	cybozu::BitVectorT<T> w; w.resize(m.size()); for (size_t i = 0; i < m.size(); i++) w.set(i, m[i]); VF_CHECK(w == v && !(w != v), "equal", d);
	if (!m.empty()) { size_t k = m.size() - 1; w.set(k, !m[k]); VF_CHECK(w != v && !(w == v), "differ", d); w.set(k, m[k]); w.resize(m.size() + 1); VF_CHECK(w != v, "differ-size", d); }
}
template<class T> static void hist(Rng& g)
{
	const size_t U = sizeof(T) * 8; cybozu::BitVectorT<T> v; M m; std::string d = fmt("u%zu:", U); int n = 1 + g.below(g_scale ? 9 : 25); uint64_t h = U;
	for (int k = 0; k < n; k++) {
		int op = g.below(13); size_t len = blen<T>(g); if (m.size() > (g_scale ? g_scale * 2 : 2000) && op < 6) op = 9; d += fmt(" %d(%zu)", op, len); note(d);
		switch (op) {
		case 0: { M a = rnd<T>(g, len); auto b = pack<T>(a, (len + U - 1) / U, g); Exact e(std::string((const char*)b.data(), b.size() * sizeof(T))); v.append((const T*)e.p, len); m.insert(m.end(), a.begin(), a.end()); break; }
		case 1: { len = g.below(U + 1); uint64_t x = g.next(); v.append(x, len); for (size_t i = 0; i < len; i++) m.push_back(x >> i & 1); break; }
		case 2: { M a = rnd<T>(g, len); auto b = pack<T>(a, (len + U - 1) / U, g); Exact e(std::string((const char*)b.data(), b.size() * sizeof(T))); cybozu::BitVectorT<T> w((const T*)e.p, len); same(w, a, d + "init"); v.append(w); m.insert(m.end(), a.begin(), a.end()); break; }
		case 3: { v.append(v); M a = m; m.insert(m.end(), a.begin(), a.end()); break; }
		case 4: { M a = rnd<T>(g, len); auto b = pack<T>(a, (len + U - 1) / U, g); Exact e(std::string((const char*)b.data(), b.size() * sizeof(T))); v.init((const T*)e.p, len); m = a; break; }
		case 5: { len = U + 1 + g.below(100); VF_CHECK(throws<cybozu::Exception>([&] { v.append((uint64_t)1, len); }), "append-long", d); break; }
		case 6: v.resize(len); m.resize(len, false); break;
		case 7: { size_t i = g.below(m.size() + 2); bool b = g.chance(1, 2); bool th = false; int how = g.below(2); try { if (how) v.set(i, b); else if (b) v.set(i); else v.reset(i); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, i >= m.size(), "set-range", d); if (!th) m[i] = b; break; }
		case 8: { v.reserve(len); cybozu::BitVectorT<T> c = v; v = c; if (g.chance(1, 3)) std::swap(v, c); break; }
		case 9: if (g.chance(1, 2)) { v.clear(); m.clear(); } break;
		default: { // extract
			size_t pos = g.chance(1, 15) ? (size_t)-1 - g.below(70) : g.below(m.size() + 3); bool ok = len == 0 || (pos <= m.size() && len <= m.size() - pos); bool th = false; M want; if (ok && len) want.assign(m.begin() + pos, m.begin() + pos + len);
			if (op == 10) { Exact e((len + U - 1) / U * sizeof(T)); try { v.extract((T*)e.p, pos, len); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, !ok, "extract-range", d); if (ok && len) { cybozu::BitVectorT<T> w((const T*)e.p, len); same(w, want, d + " extract"); if (len % U) VF_CHECK(((const T*)e.p)[len / U] >> (len % U) == 0, "extract-tail", d); } }
			else if (op == 11) { cybozu::BitVectorT<T> w; w.append(g.next(), U); try { v.extract(w, pos, len); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, !ok, "extractv-range", d); if (ok) same(w, want, d + " extractv"); }
			else { len = g.below(U + 3); ok = len == 0 || (len <= U && pos <= m.size() && len <= m.size() - pos); T x = 0; try { x = v.extract(pos, len); } catch (cybozu::Exception&) { th = true; } VF_EQ(th, !ok, "extractw-range", d); if (ok) { T w = 0; for (size_t i = 0; i < len; i++) if (m[pos + i]) w |= T(T(1) << i); VF_CHECK(x == w, "extractw", d + fmt(" pos=%zu len=%zu", pos, len)); } }
			count(ok ? "extract" : "extract-refused"); break; }
		}
		same(v, m, d); count("op"); h = mix(h ^ op ^ m.size()); distinct(h ^ hashStr(show(m)));
	}
	if (wantSample()) sample(d);
}
VF_PART(history, 20000, 700000) { switch (idx % 4) { case 0: hist<uint8_t>(rng); break; case 1: hist<uint16_t>(rng); break; case 2: hist<uint32_t>(rng); break; default: hist<uint64_t>(rng); break; } }
template<class T> static void blocks(Rng& g)
{
	const size_t U = sizeof(T) * 8; size_t len = blen<T>(g), n = (len + U - 1) / U; M a = rnd<T>(g, len); auto b = pack<T>(a, n, g); std::string raw((const char*)b.data(), n * sizeof(T)); Exact src(raw); T *s = (T*)src.p; std::string d = fmt("u%zu len=%zu ", U, len) + show(a); note(d);
	VF_EQ(cybozu::RoundupBit<T>(len), n, "roundup", d); for (size_t i = 0; i < len; i++) VF_CHECK(cybozu::GetBlockBit<T>(s, i) == (bool)a[i], "block-get", d);
	if (len) { size_t i = g.below(len); cybozu::SetBlockBit<T>(s, i); VF_CHECK(cybozu::GetBlockBit<T>(s, i), "block-set", d); cybozu::ResetBlockBit<T>(s, i); VF_CHECK(!cybozu::GetBlockBit<T>(s, i), "block-reset", d); for (size_t j = 0; j < len; j++) if (j != i) VF_CHECK(cybozu::GetBlockBit<T>(s, j) == (bool)a[j], "block-other", d); if (a[i]) cybozu::SetBlockBit<T>(s, i); }
	{ Exact dst(n * sizeof(T)); cybozu::CopyBit<T>((T*)dst.p, s, len); for (size_t i = 0; i < n * U; i++) VF_CHECK(cybozu::GetBlockBit<T>((T*)dst.p, i) == (i < len && a[i]), "copybit", d); }
	{ size_t sh = g.below(U + 2); T ext = sh ? T(g.next() & ((sh < U ? (T(1) << sh) : 0) - 1)) : g.chance(1, 2) ? T(0) : T(g.next() & (len >= U ? T(-1) : T((T(1) << len) - 1))); bool inPlace = g.chance(1, 3), th = false; Exact o(n * sizeof(T)); if (inPlace) memcpy(o.p, src.p, o.n); T ret = 0; try { ret = cybozu::ShiftLeftBit<T>((T*)o.p, inPlace ? (T*)o.p : s, len, sh, ext); } catch (cybozu::Exception&) { th = true; }
		VF_EQ(th, len > 0 && sh >= U, "shl-range", d); if (!th && len) { M w(n * U + U); for (size_t i = 0; i < len; i++) w[i + sh] = a[i]; for (size_t i = 0; i < U; i++) if (ext >> i & 1) w[i] = true; for (size_t i = 0; i < n * U; i++) VF_CHECK(cybozu::GetBlockBit<T>((T*)o.p, i) == (bool)w[i], "shl", d + fmt(" shift %zu bit %zu", sh, i)); for (size_t i = 0; i < U; i++) VF_CHECK((ret >> i & 1) == (T)w[n * U + i], "shl-ret", d + fmt(" shift %zu", sh)); } }
	if (len) { // shifted copy over any previous content; only the stated bits change
		size_t sh = 1 + g.below(U - 1), m = (len + sh + U - 1) / U; Exact o(m * sizeof(T)); for (size_t i = 0; i < o.n; i++) o.p[i] = (char)g.next(); std::string before(o.p, o.n); cybozu::bitvector_local::shiftLeftBit<T>((T*)o.p, s, len, sh); for (size_t i = 0; i < len + sh; i++) VF_CHECK(cybozu::GetBlockBit<T>((T*)o.p, i) == (i < sh ? cybozu::GetBlockBit<T>((const T*)before.data(), i) : (bool)a[i - sh]), "copy-shl", d + fmt(" shift %zu bit %zu", sh, i));
		if (len > sh) { size_t w = len - sh, wn = (w + U - 1) / U; Exact r(wn * sizeof(T)); cybozu::bitvector_local::shiftRightBit<T>((T*)r.p, s, w, sh); for (size_t i = 0; i < wn * U; i++) VF_CHECK(cybozu::GetBlockBit<T>((T*)r.p, i) == (i < w && a[i + sh]), "copy-shr", d + fmt(" shift %zu bit %zu", sh, i)); } }
	count("block"); distinct(hashStr(show(a)) + U);
}
VF_PART(block, 30000, 900000) { switch (idx % 4) { case 0: blocks<uint8_t>(rng); break; case 1: blocks<uint16_t>(rng); break; case 2: blocks<uint32_t>(rng); break; default: blocks<uint64_t>(rng); break; } }
// the same histories and block functions with long vectors (up to some million bits)
VF_PART(bighistory, 64, 3000) { g_scale = idx % 8 == 3 ? 1500000 : 200000; switch (idx % 4) { case 0: hist<uint8_t>(rng); break; case 1: hist<uint16_t>(rng); break; case 2: hist<uint32_t>(rng); break; default: hist<uint64_t>(rng); break; } g_scale = 0; count("long"); }
VF_PART(bigblock, 64, 3000) { g_scale = 1500000; switch (idx % 4) { case 0: blocks<uint8_t>(rng); break; case 1: blocks<uint16_t>(rng); break; case 2: blocks<uint32_t>(rng); break; default: blocks<uint64_t>(rng); break; } g_scale = 0; }
