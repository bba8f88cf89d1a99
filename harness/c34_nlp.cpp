// C34: nlp: approximate SVD and its matrix files, pLSI learning and ranking, TF-IDF counting - against independent definitions.
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include "common.hpp"
#include <cybozu/nlp/tfidf.hpp>
#include <cybozu/nlp/plsi.hpp>
#include <cybozu/nlp/svd.hpp>
using namespace vf;
namespace nlp = cybozu::nlp;
struct Dir { std::string p; Dir() { char b[] = "/tmp/vf-nlp-XXXXXX"; p = mkdtemp(b); } ~Dir() { for (int i = 0; i < 6; i++) unlink(f(i).c_str()); rmdir(p.c_str()); } std::string f(int i) const { return p + fmt("/%d", i); } };
typedef Eigen::MatrixXd Md; typedef Eigen::VectorXd Vd; typedef Eigen::SparseMatrix<double, Eigen::RowMajor> Sp;
static Md dense(Rng& g, int m, int n, int style) { Md A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = style == 0 ? (double)g.range(-9, 9) : style == 1 ? (g.chance(1, 4) ? (double)(1 + g.below(5)) : 0) : ((double)g.range(-100000, 100000) / 30000); return A; }
static bool close(double a, double b, double tol) { return fabs(a - b) <= tol * (1 + fabs(b)); }
VF_PART(svd, 12000, 80000)
{
	int m = 1 + rng.below(12), n = 1 + rng.below(12), style = rng.below(3), rank = rng.chance(1, 5) ? std::max(m, n) + rng.below(5) : 1 + rng.below(std::min(m, n)); Md A = dense(rng, m, n, style); if (rng.chance(1, 3)) { int k = 1 + rng.below(std::min(m, n)); A = dense(rng, m, k, style) * dense(rng, k, n, style); } std::string d = fmt("%d x %d style %d rank %d", m, n, style, rank); note(d); Md U, V; Vd S; bool ok, sparse = rng.chance(1, 3); if (sparse) { Sp B = A.sparseView(); ok = nlp::ComputeSVD(U, S, V, B, rank); } else ok = nlp::ComputeSVD(U, S, V, A, rank); VF_CHECK(ok, "svd-result", d); int r = std::min(rank, std::min(m, n)); VF_CHECK(U.rows() == m && U.cols() == r && S.rows() == r && V.rows() == n && V.cols() == r, "svd-shape", d);
	double nA = A.norm(); if (nA == 0) { VF_CHECK(S.norm() == 0, "svd-zero", d); evals(); return; } Eigen::JacobiSVD<Md> full(A); for (int i = 0; i < r; i++) { VF_CHECK(S(i) >= 0 && (i == 0 || S(i) <= S(i - 1) * (1 + 1e-9) + 1e-9), "svd-order", d); VF_CHECK(S(i) <= full.singularValues()(i) * (1 + 1e-6) + 1e-6 * nA, "svd-too-large", d + fmt(" value %d: %g > %g", i, S(i), full.singularValues()(i))); }
	// documented algorithm: U S tV = A P with P the projector on the span of tA R, R the compressed unit matrix
	Md R = Md::Zero(m, r); for (int i = 0; i < m; i++) R(i, i * r / m) = 1; Md Y = A.transpose() * R; Eigen::JacobiSVD<Md> ys(Y, Eigen::ComputeThinU); double y0 = ys.singularValues()(0); bool clear = y0 > 1e-3 * nA; int k = 0; for (int i = 0; i < r; i++) { double s = ys.singularValues()(i); if (s > 0.05 * y0) k++; else if (s > 1e-12 * y0) clear = false; } Md Q = ys.matrixU().leftCols(k); Md B = A * Q; if (k) { Eigen::JacobiSVD<Md> bs(B); for (int i = 0; i < k; i++) { double s = bs.singularValues()(i); if (s < 0.02 * bs.singularValues()(0) && s > 1e-12 * nA) clear = false; } }
	if (clear && y0 > 0.1) { Md W = U * S.asDiagonal() * V.transpose(); double e = (W - B * Q.transpose()).norm(); VF_CHECK(e <= 1e-6 * nA, "svd-projection", d + fmt(" error %g of %g", e, nA)); if (r == m && k == full.nonzeroSingularValues()) { VF_CHECK((W - A).norm() <= 1e-6 * nA, "svd-exact", d); count("exact"); }
		for (int a = 0; a < r; a++) for (int b = 0; b < r; b++) if (S(a) > 1e-4 * nA && S(b) > 1e-4 * nA) { VF_CHECK(fabs(U.col(a).dot(U.col(b)) - (a == b)) < 1e-6, "svd-U-orthonormal", d); VF_CHECK(fabs(V.col(a).dot(V.col(b)) - (a == b)) < 1e-6, "svd-V-orthonormal", d); } count("svd"); } distinct(mix(m * 1000 + n * 50 + rank) + style + (uint64_t)(nA * 1000)); evals(); if (wantSample()) sample(d);
	if (idx % 10 == 0) { Md E(0, 3); VF_CHECK(!nlp::ComputeSVD(U, S, V, E, 3), "svd-empty", ""); VF_CHECK(!nlp::ComputeSVD(U, S, V, A, 0), "svd-rank-0", d); VF_CHECK(!nlp::ComputeSVD(U, S, V, A, -(int)rng.below(5)), "svd-rank-neg", d); }
	{ int q = 1 + rng.below(n); Md O; nlp::svd::CompressCol(O, A, q); VF_CHECK(O.rows() == m && O.cols() == q, "compress-shape", d); for (int i = 0; i < m; i++) VF_CHECK(close(O.row(i).sum(), A.row(i).sum(), 1e-9), "compress-sum", d); }
}
static std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p.c_str(), std::ios::binary); f << s; }
VF_PART(file, 6000, 40000)
{
	Dir dir; int m = 1 + rng.below(8), n = 1 + rng.below(8), style = rng.below(3); Md A = dense(rng, m, n, style); if (rng.chance(1, 3)) A *= pow(10.0, (double)rng.range(-12, 12)); std::string d = fmt("%d x %d style %d", m, n, style); note(d); double mx = A.cwiseAbs().maxCoeff();
	auto eq = [&](const Md& B) { if (B.rows() != m || B.cols() != n) return false; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (fabs(A(i, j) - B(i, j)) > 1e-7 * fabs(A(i, j))) return false; return true; };
	VF_CHECK(nlp::svd::SaveMatrix(dir.f(0), A), "save", d); Md B = dense(rng, 3, 2, 0); VF_CHECK(nlp::svd::LoadMatrix(B, dir.f(0)) && eq(B), "dense-round-trip", d); Sp T = A.sparseView(); VF_CHECK(nlp::svd::SaveSparseMatrix(dir.f(1), T), "save-sparse", d); Sp X; VF_CHECK(nlp::svd::LoadSparseMatrix(X, dir.f(1)) && eq(Md(X)), "sparse-round-trip", d); VF_EQ((int)X.nonZeros(), (int)T.nonZeros(), "sparse-count", d); Md Z = dense(rng, m, n, 2); VF_CHECK(nlp::svd::LoadMatrix(Z, dir.f(1)) && eq(Z), "sparse-to-dense", d); Vd v = A.col(rng.below(n)), w; VF_CHECK(nlp::svd::SaveVector(dir.f(2), v), "save-vector", d); VF_CHECK(nlp::svd::LoadVector(w, dir.f(2)) && w.rows() == m && (w - v).norm() <= 1e-7 * v.norm(), "vector-round-trip", d); (void)mx;
	VF_CHECK(!nlp::svd::LoadMatrix(B, dir.f(2)) && !nlp::svd::LoadVector(w, dir.f(0)) && !nlp::svd::LoadSparseMatrix(X, dir.f(0)) && !nlp::svd::LoadMatrix(B, dir.p + "/none"), "wrong-kind", d); VF_CHECK(!nlp::svd::SaveMatrix(dir.p + "/no/such", A) && !nlp::svd::SaveVector("/dev/full", v) && !nlp::svd::SaveSparseMatrix("/dev/full", T) && !nlp::svd::SaveMatrix("/dev/full", A), "save-failure-hidden", d); count("round-trips");
	for (int k = 0; k < 4; k++) { int which = rng.below(3); std::string s = slurp(dir.f(which)), t = s; size_t nl = s.find('\n'); int kind = rng.below(7); switch (kind) { case 0: { size_t row = nl + 1; for (int i = rng.below(m); i > 0; i--) row = s.find('\n', row) + 1; t = s.substr(0, row - (row > nl + 1 && rng.chance(1, 2) ? 1 : 0)); break; } case 1: { size_t end = s.size() - 1; if (which != 1) while (end > nl + 1 && s[end - 1] != ' ' && s[end - 1] != '\n') end--; /* text after the last value is not looked at */ t.insert(nl + 1 + rng.below(end - nl), "?"); break; } case 2: t[rng.below(3) * 2] = "xyz"[rng.below(3)]; break; case 3: t = fmt("# M %c %d %d", which ? 'S' : 'D', rng.chance(1, 2) ? 0 : -3, 4) + s.substr(nl); break; case 5: { std::vector<size_t> at; if (which == 1) for (size_t i = nl; i < s.size(); i++) if (s[i] == ':') at.push_back(i); if (at.empty()) continue; t[at[rng.below(at.size())]] = ";= /,"[rng.below(5)]; break; } case 4: { if (which != 1) continue; int c = n + (rng.chance(1, 2) ? 0 : rng.below(100)); t = s.substr(0, nl + 1) + fmt("%d:1.5 ", rng.chance(1, 4) ? -1 : c) + s.substr(nl + 1); break; } default: t.clear(); }
		spit(dir.f(3), t); Md D; Sp E; Vd F; bool ok = which == 0 ? nlp::svd::LoadMatrix(D, dir.f(3)) : which == 1 ? (rng.chance(1, 2) ? nlp::svd::LoadSparseMatrix(E, dir.f(3)) : nlp::svd::LoadMatrix(D, dir.f(3))) : nlp::svd::LoadVector(F, dir.f(3)); VF_CHECK(!ok, "damaged-file-accepted", d + fmt(" file %d damage %d: ", which, kind) + t.substr(0, 200)); count("damaged"); }
	if (n >= 2) { int a = rng.below(n - 1), b = a + 1 + rng.below(n - a - 1); spit(dir.f(4), fmt("# M S 1 %d\n%d:1 %d:2\n", n, b, rng.chance(1, 2) ? a : b)); Sp E; if (nlp::svd::LoadSparseMatrix(E, dir.f(4))) { VF_CHECK(E.coeff(0, b) != 0 && E.sum() == 3, "unordered-sparse", d); } count("unordered"); }
	distinct(hashStr(slurp(dir.f(0)))); evals();
}
// ---- pLSI ----
typedef long double LD;
struct Model { int K; std::vector<std::set<size_t>> item; size_t M; std::vector<LD> z; std::vector<std::vector<LD>> u, y;
	void start(int k) { K = k; size_t N = item.size(); z.assign(K, 1.0L / K); u.assign(K, std::vector<LD>(M, 1.0L / M)); y.assign(K, std::vector<LD>(N)); uint32_t a = 123456789, b = 362436069, c = 521288629, e = 88675123; auto g = [&] { uint32_t t = a ^ (a << 11); a = b; b = c; c = e; e = e ^ (e >> 19) ^ t ^ (t >> 8); return e; }; for (auto& v : y) { LD s = 0; for (auto& x : v) { uint32_t p = g() >> 5, q = g() >> 6; x = (p * 67108864.0L + q) / 9007199254740992.0L * 0.5L + 0.25L; s += x; } for (auto& x : v) x /= s; } }
	LD step(LD beta) { std::vector<LD> zn(K); std::vector<std::vector<LD>> un(K, std::vector<LD>(M)), yn(K, std::vector<LD>(item.size())); LD L = 0; size_t cnt = 0; for (size_t i = 0; i < item.size(); i++) for (size_t x : item[i]) { cnt++; LD s = 0; std::vector<LD> p(K); for (int k = 0; k < K; k++) s += p[k] = powl(z[k] * u[k][x] * y[k][i], beta); for (int k = 0; k < K; k++) { LD q = p[k] / s; un[k][x] += q; yn[k][i] += q; zn[k] += q; } L += logl(s); } for (int k = 0; k < K; k++) { z[k] = zn[k] / cnt; for (auto& v : un[k]) v /= zn[k]; for (auto& v : yn[k]) v /= zn[k]; } u = un; y = yn; return L; }
	LD px(size_t x) { LD s = 0; for (int k = 0; k < K; k++) s += z[k] * u[k][x]; return s; } LD pyx(size_t i, size_t x) { LD s = 0; for (int k = 0; k < K; k++) s += z[k] * u[k][x] * y[k][i]; return s / px(x); } LD perp() { LD s = 0; size_t n = 0; for (size_t i = 0; i < item.size(); i++) for (size_t x : item[i]) { s += logl(pyx(i, x)); n++; } return expl(-s / n); } LD py(size_t i) { LD s = 0; for (int k = 0; k < K; k++) s += z[k] * y[k][i]; return s; } LD joint(size_t i, size_t j) { LD s = 0; for (int k = 0; k < K; k++) s += y[k][i] * y[k][j] * z[k]; return s; } };
template<class Tbl, class F> static void ranked(const Tbl& t, size_t top, size_t N, F f, const char *key, const std::string& d) { VF_EQ(t.size(), std::min(top, N), fmt("%s-size", key), d); std::set<size_t> seen; double last = 0; for (size_t i = 0; i < t.size(); i++) { VF_CHECK(t[i].idx < N && seen.insert(t[i].idx).second, fmt("%s-index", key), d); VF_CHECK(i == 0 || t[i].score <= t[i - 1].score, fmt("%s-order", key), d); double w = (double)f(t[i].idx); VF_CHECK(fabs(t[i].score - w) <= 1e-6 * fabs(w) + 1e-12, fmt("%s-score", key), d + fmt(" item %zu: %.12g want %.12g", t[i].idx, t[i].score, w)); last = t[i].score; } if (!t.empty()) for (size_t i = 0; i < N; i++) if (!seen.count(i)) VF_CHECK((double)f(i) <= last * (1 + 1e-5) + 1e-12, fmt("%s-missed", key), d + fmt(" item %zu", i)); }
VF_PART(plsi, 6000, 40000)
{
	nlp::Plsi p; Model r; int N = 1 + rng.below(10), M = 1 + rng.below(10); std::vector<int> ik, uk; std::set<int> used; while ((int)ik.size() < N) { int k = (int)rng.range(-50, 50); if (used.insert(k).second) ik.push_back(k); } used.clear(); while ((int)uk.size() < M) { int k = (int)rng.range(-50, 50); if (used.insert(k).second) uk.push_back(k); } std::map<int, size_t> uid; r.item.resize(N); std::string d = fmt("%d items %d users:", N, M);
	for (int u = 0; u < M; u++) { VF_EQ(p.get_user_id(uk[u]), (size_t)u, "user-id", d); VF_EQ(p.get_user_id(uk[rng.below(u + 1)]) <= (size_t)u, true, "user-id-again", d); } for (int i = 0; i < N; i++) { VF_EQ(p.get_item_id(ik[i]), (size_t)i, "item-id", d); VF_EQ(p.get_item_key(i), ik[i], "item-key", d); std::map<size_t, bool> m; int dens = 1 + rng.below(3); for (int u = 0; u < M; u++) if (rng.below(4) < (uint64_t)dens) m[p.get_user_id(uk[u])] = true; if (m.empty()) m[rng.below(M)] = true; for (auto& x : m) r.item[i].insert(x.first); p.getItem(ik[i]).set(m); d += fmt(" %zu", m.size()); } r.M = M;
	std::set<size_t> act; for (auto& s : r.item) act.insert(s.begin(), s.end()); for (int round = 0; round < 1 + (int)rng.below(2); round++) { int K = 1 + rng.below(4); d += fmt(" K%d", K); note(d); p.startLearning(K); r.start(K); double prev = 0; int steps = rng.below(7); bool plain = rng.chance(1, 2); for (int s = 0; s < steps; s++) { double beta = plain ? 1 : 0.6 + (double)rng.below(5) / 10; double L = plain && rng.chance(1, 2) ? p.step() : p.step(beta); LD W = r.step(beta); VF_CHECK(fabs(L - (double)W) <= 1e-7 * (1 + fabs((double)W)), "likelihood", d + fmt(" step %d: %.12g want %.12g", s, L, (double)W)); if (plain && s > 0) VF_CHECK(L >= prev - 1e-7 * (1 + fabs(prev)), "likelihood-decreases", d + fmt(" step %d: %g after %g", s, L, prev)); prev = L; count("steps"); }
		double pp = p.perplexity(); VF_CHECK(close(pp, (double)r.perp(), 1e-6) && pp >= 1 - 1e-9, "perplexity", d + fmt(" %.12g want %.12g", pp, (double)r.perp()));
		for (int q = 0; q < 4; q++) { size_t u = rng.below(M), t = rng.below(N), top = rng.chance(1, 3) ? 1 + rng.below(2) : 1 + rng.below(N + 3); if (steps == 0 || act.count(u)) ranked(p.search_items(uk[u], (int)top), top, N, [&](size_t i) { return r.pyx(i, u); }, "search", d); ranked(p.similar_items(ik[t], nlp::Plsi::JOINT, (int)top), top, N, [&](size_t i) { return r.joint(i, t); }, "joint", d); ranked(p.similar_items(ik[t], nlp::Plsi::CONDITIONAL, (int)top), top, N, [&](size_t i) { return r.joint(i, t) / r.py(t); }, "conditional", d); ranked(p.similar_items(ik[t], nlp::Plsi::POSTERIOR, (int)top), top, N, [&](size_t i) { return r.joint(i, t) / r.py(i); }, "posterior", d); count("rankings", 4); } }
	VF_CHECK(throws<cybozu::Exception>([&] { p.search_items(1000); }) && throws<cybozu::Exception>([&] { p.similar_items(-1000, nlp::Plsi::JOINT); }), "unknown-key", d); VF_CHECK(p.perplexity() > 0 && p.step() < 1e300, "usable-after-unknown", d); distinct(hashStr(d)); evals(); if (wantSample()) sample(d);
}
// ---- TF-IDF ----
static std::string vary(Rng& g, const std::string& s) { std::string r = s; for (auto& c : r) if (g.chance(1, 3)) c = (char)toupper((unsigned char)c); return r; }
VF_PART(tfidf, 8000, 60000)
{
	Dir dir; int W = 1 + rng.below(12), D = rng.below(15); std::vector<std::string> words; std::set<std::string> ws; while ((int)words.size() < W) { std::string w; for (int i = 1 + rng.below(4); i > 0; i--) w += (char)('a' + rng.below(4)); if (rng.chance(1, 4)) w += "\xe3\x81\x82"; if (ws.insert(w).second) words.push_back(w); } std::vector<std::vector<std::string>> docs(D); for (auto& v : docs) for (int n = rng.below(20); n > 0; n--) v.push_back(vary(rng, words[rng.below(W)])); std::string d = fmt("%d words %d docs:", W, D); for (auto& v : docs) d += fmt(" %zu", v.size()); note(d); auto low = [](std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; };
	nlp::Df df; std::map<std::string, int> wdf; std::vector<std::string> order; for (auto& v : docs) { std::set<std::string> s; for (auto& w : v) { df.append(w); std::string l = low(w); if (s.insert(l).second) { if (!wdf.count(l)) order.push_back(l); wdf[l]++; } } df.endDoc(); } VF_EQ(df.docNum_, D, "doc-number", d); VF_EQ(df.df_.size(), wdf.size(), "word-number", d); for (size_t i = 0; i < order.size() && i < df.df_.size(); i++) { VF_EQ(df.id2word_[i], order[i], "word-order", d); VF_EQ(df.df_[i], wdf[order[i]], "document-frequency", d + " word " + hex(order[i])); VF_EQ(df.word2id_[order[i]], (int)i, "word-id", d); }
	int lim = rng.below(4); static const double rates[] = { 1.0, 0.98, 0.5, 0.75, 0 }; double rate = rates[rng.below(5)]; df.term(lim, rate); std::vector<int> fr; for (auto& x : wdf) if (x.second > lim) fr.push_back(x.second); std::sort(fr.begin(), fr.end()); fr.resize((size_t)(int)(fr.size() * rate)); VF_EQ(df.pv_.size(), fr.size(), "kept-number", d + fmt(" limit %d rate %g", lim, rate)); std::set<int> ids; for (size_t i = 0; i < fr.size() && i < df.pv_.size(); i++) { VF_EQ(df.pv_[i].freq, fr[i], "kept-frequency", d); VF_EQ(df.df_[df.pv_[i].id], fr[i], "kept-id", d); VF_CHECK(ids.insert(df.pv_[i].id).second, "kept-twice", d); } { std::ostringstream os; os << df; std::istringstream is(os.str()); std::string line; size_t i = 0; while (std::getline(is, line)) { size_t a = line.find('\t'), b = line.find('\t', a + 1); if (i >= fr.size() || a == std::string::npos || b == std::string::npos) fail("df-output", d); VF_EQ(line.substr(0, a), df.id2word_[df.pv_[i].id], "df-word", d); VF_EQ(atoi(line.c_str() + a + 1), fr[i], "df-freq", d); VF_CHECK(fabs(atof(line.c_str() + b + 1) - log((double)D / fr[i])) < 1e-4, "df-idf", d); i++; } VF_EQ(i, fr.size(), "df-lines", d); } count("df-words", order.size());
	// keywords: a random part of the words
	std::vector<std::string> keys; std::string file; for (auto& w : words) if (rng.chance(2, 3)) { keys.push_back(w); file += w + "\t" + fmt("%d", (int)rng.below(10)) + "\n"; if (rng.chance(1, 8)) file += w + "\tagain\n"; } spit(dir.f(0), file); nlp::TfIdf t; VF_CHECK(!t.loadKeywordFile(dir.p + "/none"), "missing-keywords", d); VF_CHECK(t.loadKeywordFile(dir.f(0)), "keywords", d); VF_EQ(t.id2word_.size(), keys.size(), "keyword-number", d); for (size_t i = 0; i < keys.size(); i++) VF_EQ(t.id2word_[i], keys[i], "keyword", d); std::map<std::string, int> id; for (size_t i = 0; i < keys.size(); i++) id[keys[i]] = (int)i; std::vector<std::map<int, int>> tf; std::vector<int> kdf(keys.size()); size_t nth = 0, more = rng.chance(1, 3) ? rng.below(D + 1) : D + 1; for (auto& v : docs) { if (nth++ == more) { /* further keywords in the middle: what was counted stays */ std::string f2; for (auto& w : words) if (rng.chance(1, 2)) { f2 += w + "\t1\n"; if (!id.count(w)) { id[w] = (int)keys.size(); keys.push_back(w); kdf.push_back(0); } } spit(dir.f(1), f2); VF_CHECK(t.loadKeywordFile(dir.f(1)), "keywords-again", d); VF_EQ(t.id2word_.size(), keys.size(), "keyword-number-again", d); count("keywords-again"); } std::map<int, int> m; for (auto& w : v) { t.append(w); auto i = id.find(low(w)); if (i != id.end()) m[i->second]++; } t.endDoc(); if (!m.empty()) { for (auto& x : m) kdf[x.first]++; tf.push_back(m); } } t.term();
	VF_EQ(t.sv_.size(), tf.size(), "vector-number", d); for (size_t i = 0; i < tf.size() && i < t.sv_.size(); i++) { VF_EQ(t.sv_[i].size(), tf[i].size(), "vector-size", d); auto m = tf[i].begin(); for (nlp::DoubleSvec::const_iterator j = t.sv_[i].begin(), je = t.sv_[i].end(); j != je && m != tf[i].end(); ++j, ++m) { VF_EQ((int)j->pos(), m->first, "vector-word", d); double w = m->second * log((double)tf.size() / kdf[m->first]); VF_CHECK(fabs(j->val() - w) < 1e-9 * (1 + fabs(w)), "tf-idf", d + fmt(" doc %zu word %d: %g want %g", i, m->first, j->val(), w)); } count("vectors"); } distinct(hashStr(d)); evals();
}
