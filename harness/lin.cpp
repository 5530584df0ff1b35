// Workloads and oracles for vectors, matrices, factorisations, CSV and sampling (L01-L04, K07 in corr.cpp).
#include "rv.hpp"
#include "LinearAlgebra/INCLUDE/vector.hpp"
#include "LinearAlgebra/INCLUDE/matrix.hpp"
#include "LinearAlgebra/INCLUDE/linear_solver.hpp"
#include <climits>
using namespace Rodop;
using rv::ld; using rv::dv; using rv::Rng;
typedef std::vector<dv> rm;   // reference matrix: rows; the column count is kept apart for empty ones

static const char* P = "L01";
static dv sv(const vec& v) { dv r(v.getSize()); for (unsigned i = 0; i < v.getSize(); i++) r[i] = v.get(i); return r; }
static vec mv(const dv& r) { vec v((unsigned)r.size()); for (unsigned i = 0; i < r.size(); i++) v.set(i, r[i]); return v; }
static rm sm(const mat& m) { rm r(m.getNRows(), dv(m.getNCols())); for (unsigned i = 0; i < m.getNRows(); i++) for (unsigned j = 0; j < m.getNCols(); j++) r[i][j] = m(i, j); return r; }
static mat mm(const rm& r, unsigned nc) { mat m((unsigned)r.size(), nc); for (unsigned i = 0; i < r.size(); i++) for (unsigned j = 0; j < nc; j++) m(i, j) = r[i][j]; return m; }
static std::string show(const rm& r) { std::string s; for (auto& x : r) s += rv::fmt(x) + ";"; return s; }
static bool same(const rm& a, const rm& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!rv::sameBits(a[i], b[i])) return false; return true; }
static double val(Rng& r) {
	switch (r.in(0, 9)) { case 0: return 0; case 1: return r.in(-3, 3); case 2: return r.gauss() * 1e6; case 3: return r.gauss() * 1e-6; default: return r.uni(-10, 10); }
}
static dv rvec(Rng& r, int n) { dv v(n); for (auto& x : v) x = val(r); return v; }
static rm rmat(Rng& r, int n, int m) { rm v(n); for (auto& x : v) x = rvec(r, m); return v; }
static int dimn(Rng& r, bool zero = true) { switch (r.in(0, 9)) { case 0: return zero ? 0 : 1; case 1: return 1; case 2: return r.in(10, 40); default: return r.in(2, 9); } }

static void expect(bool ok, const std::string& what, const std::string& detail = "") { rv::count("checks"); if (!ok) rv::viol(P, what, detail); }
static void near(const std::string& what, ld got, ld want, ld scale, const std::string& ctx = "") {
	rv::count("checks");
	if (!(std::isfinite((double)got) && fabsl(got - want) <= 1e-12L * scale + 1e-300L)) rv::viol(P, what, "got " + rv::fmt((double)got) + " expected " + rv::fmt((double)want) + " " + ctx);
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// an operation that must be refused and must not change its operand
template <class F> static void refused(const std::string& what, mat& m, unsigned, F f) {
	rm before = sm(m); unsigned br = m.getNRows(), bc = m.getNCols(); rv::count("invalid operations");
	bool t = throws([&] { f(m); });
	if (!t) { rv::viol(P, "accepted:" + what, "matrix " + std::to_string(br) + "x" + std::to_string(bc)); m = mm(before, bc); return; }
	if (m.getNRows() != br || m.getNCols() != bc || !same(before, sm(m))) { rv::viol(P, "changed-by-rejected:" + what, "matrix was " + std::to_string(br) + "x" + std::to_string(bc)); }
}

static void vectorOps(Rng& r) {
	int n = dimn(r); dv a = rvec(r, n), b = rvec(r, n), c = rvec(r, n + 1 + r.in(0, 2));
	vec A = mv(a), B = mv(b), C = mv(c);
	rv::distinct("vec n=" + std::to_string(n)); rv::count("vectors");
	expect(rv::sameBits(sv(A), a) && A.getSize() == (unsigned)n && A.isEmpty() == (n == 0), "vec:store");
	{ vec D(A); vec E; E = A; vec S = A; if (n) { D(0) = 77; E.set(n - 1, -3); S(n / 2) += 1; } expect(rv::sameBits(sv(A), a), "vec:copy-independent"); A = A; expect(rv::sameBits(sv(A), a), "vec:self-assign"); }
	ld s = 0, p = 1, dot = 0, l1 = 0, l2 = 0, li = 0, as = 0, ad = 0;
	for (int i = 0; i < n; i++) { s += a[i]; as += fabsl(a[i]); p *= a[i]; dot += (ld)a[i] * b[i]; ad += fabsl((ld)a[i] * b[i]); l1 += fabsl(a[i]); l2 += (ld)a[i] * a[i]; li = std::max(li, fabsl((ld)a[i])); }
	near("vec:sum", A.sum(), s, as); near("vec:dot", A.dot(B), dot, ad); near("vec:dotNoLib", A.dotNoLib(B), dot, ad); near("vec:dotProduct", vec::dotProduct(A, B), dot, ad);
	if (n && fabsl(p) < 1e300L && fabsl(p) > 1e-290L) near("vec:product", A.product(), p, fabsl(p));
	near("vec:norm-l1", A.norm(L1), l1, l1); near("vec:norm-l2", A.norm(L2), sqrtl(l2), sqrtl(l2)); near("vec:norm-inf", A.norm(LINF), li, 0);
	if (l2 > 0) { ld t = 0; for (double x : sv(A.unitVector())) t += (ld)x * x; near("vec:unit", t, 1, 10); } else expect(throws([&] { A.unitVector(); }), "vec:unit-zero-accepted");
	double k = val(r), k2 = val(r);
	for (int i = 0; i < n; i++) {
		near("vec:add", (A + B)(i), (ld)a[i] + b[i], fabs(a[i]) + fabs(b[i])); near("vec:sub", (A - B)(i), (ld)a[i] - b[i], fabs(a[i]) + fabs(b[i]));
		near("vec:mul-scalar", (A * k)(i), (ld)a[i] * k, fabs(a[i] * k)); near("vec:add-scalar", (A + k)(i), (ld)a[i] + k, fabs(a[i]) + fabs(k)); near("vec:sub-scalar", (A - k)(i), (ld)a[i] - k, fabs(a[i]) + fabs(k));
		near("vec:axpb", vec::scaleAndAdd(A, k, k2)(i), (ld)k * a[i] + k2, fabs(k * a[i]) + fabs(k2));
		near("vec:axpy", vec::scaleAndAdd(A, k, B)(i), (ld)k * a[i] + b[i], fabs(k * a[i]) + fabs(b[i])); near("vec:axpy-nolib", vec::scaleAndAddNoLib(A, k, B)(i), (ld)k * a[i] + b[i], fabs(k * a[i]) + fabs(b[i]));
	}
	bool lt = true, gt = true, eq = true; for (int i = 0; i < n; i++) { lt &= a[i] < b[i]; gt &= a[i] > b[i]; eq &= fabs(a[i] - b[i]) <= 1e-9; }
	expect((A < B) == lt && (A > B) == gt && A.is_equal(B) == eq && A.is_equal(A), "vec:compare");
	{ dv sh = a; for (auto& x : sh) x += r.uni(0.1, 1); expect((A < mv(sh)) && (mv(sh) > A) && !(n && A > mv(sh)), "vec:compare-shifted"); if (n) { sh[r.in(0, n - 1)] -= 2; expect(!(A < mv(sh)), "vec:compare-one-off"); } }
	if (n) { dv q = a; q[r.in(0, n - 1)] += 1e-3; expect(!A.is_equal(mv(q)) && A.is_equal(mv(q), 2e-3), "vec:is_equal-tolerance"); }
	if (n) {
		int mi = std::min_element(a.begin(), a.end()) - a.begin(), ma = std::max_element(a.begin(), a.end()) - a.begin();
		expect(A.findMin() == a[mi] && a[A.findMinIndex()] == a[mi] && A.findMax() == a[ma] && a[A.findMaxIndex()] == a[ma], "vec:minmax", rv::fmt(a));
		ld m = s / n, v = 0; for (double x : a) v += (x - m) * (x - m);
		near("vec:mean", A.mean(), m, as / n); near("vec:std", A.standardDeviation(), sqrtl(v / n), as + 1e-300L);
		dv so = a; std::sort(so.begin(), so.end());
		double q = r.chance(0.2) ? (r.chance(0.5) ? 0.0 : 1.0) : r.u(); ld x = (ld)q * (n - 1); int lo = (int)floorl(x); int hi = std::min(lo + 1, n - 1);
		near("vec:quantile", A.quantile(q), so[lo] + (x - lo) * ((ld)so[hi] - so[lo]), fabs(so[lo]) + fabs(so[hi]) + n * (fabs(so.back()) + fabs(so[0])));
		expect(throws([&] { A.quantile(1.0 + r.u() + 1e-9); }) && throws([&] { A.quantile(-1e-9 - r.u()); }), "vec:quantile-range");
		vec S(A); S.sort(); expect(rv::sameBits(sv(S), so) && S.is_sorted(), "vec:sort"); S.sort(false); std::reverse(so.begin(), so.end()); expect(sv(S) == so && S.is_sorted(false), "vec:sort-desc");
		bool asc = true, desc = true; for (int i = 0; i + 1 < n; i++) { asc &= a[i] <= a[i + 1]; desc &= a[i] >= a[i + 1]; } expect(A.is_sorted() == asc && A.is_sorted(false) == desc, "vec:is_sorted");
		// half-open intervals; a value beyond the end belongs to the last
		vec T(A); T.sort(); dv t = sv(T); double w = r.chance(0.3) ? t[r.in(0, n - 1)] : r.uni(-12, 12); if (w != t.back()) {
			int want = -1; for (int i = 0; i + 1 < n; i++) if (w >= t[i] && w < t[i + 1]) { want = i; break; } if (w > t.back()) want = n - 1;
			expect(T.findInterval(w) == want, "vec:findInterval", rv::fmt(t) + " value " + rv::fmt(w)); }
		if (!asc) expect(throws([&] { A.findInterval(0); }), "vec:findInterval-unsorted");
	} else {
		expect(throws([&] { A.findMin(); }) && throws([&] { A.findMax(); }) && throws([&] { A.findMinIndex(); }) && throws([&] { A.findMaxIndex(); }) && throws([&] { A.mean(); }) && throws([&] { A.quantile(0.5); }) && throws([&] { A.standardDeviation(); }), "vec:empty-statistics");
	}
	{ int h = r.in(0, n), t = r.in(0, n); expect(rv::sameBits(sv(A.head(h)), dv(a.begin(), a.begin() + h)) && rv::sameBits(sv(A.tail(t)), dv(a.end() - t, a.end())), "vec:head-tail"); expect(throws([&] { A.head(n + 1); }) && throws([&] { A.tail(n + 1); }), "vec:head-range"); }
	{ bool z = true, hz = false; for (double x : a) { z &= fabs(x) <= 1e-8; hz |= fabs(x) <= 1e-9; } expect(A.is_zero() == z && A.has_zeros() == hz && !A.has_nan(), "vec:zero-tests"); if (n) { vec N(A); N(r.in(0, n - 1)) = NAN; expect(N.has_nan(), "vec:has_nan"); } expect(vec(n).is_zero(), "vec:is_zero"); }
	{ dv lo(n), hi(n); for (int i = 0; i < n; i++) { lo[i] = a[i] - r.u(); hi[i] = a[i] + r.u(); } if (n && r.chance(0.3)) lo[r.in(0, n - 1)] = 20e6; bool in = true; for (int i = 0; i < n; i++) in &= a[i] >= lo[i] && a[i] <= hi[i]; expect(A.is_between(mv(lo), mv(hi)) == in && A.is_between(A, A), "vec:is_between"); }
	{ int pos = r.in(-1, n); vec D(A); D.appendVector(C, pos); dv e = a; e.insert(pos < 0 ? e.end() : e.begin() + pos, c.begin(), c.end()); expect(rv::sameBits(sv(D), e), "vec:appendVector", "position " + std::to_string(pos));
		vec E(A); expect(throws([&] { E.appendVector(C, n + 1 + r.in(0, 3)); }) && throws([&] { E.appendVector(C, -2 - r.in(0, 3)); }) && rv::sameBits(sv(E), a), "vec:append-range");
		vec F(A); double x = val(r); F.push_back(x); e = a; e.push_back(x); expect(rv::sameBits(sv(F), e), "vec:push_back"); }
	{ vec D(C); int pos = r.in(0, (int)c.size() - 1); D.copyVector(A, pos); dv e = c; for (int i = 0; i < n && pos + i < (int)e.size(); i++) e[pos + i] = a[i]; expect(rv::sameBits(sv(D), e), "vec:copyVector"); vec E(C); expect(throws([&] { E.copyVector(A, (int)c.size()); }) && throws([&] { E.copyVector(A, -1); }) && rv::sameBits(sv(E), c), "vec:copyVector-range"); }
	{ int ns = dimn(r); double df = val(r); vec D(A); D.resize(ns, df); dv e = a; e.resize(ns, df); expect(rv::sameBits(sv(D), e), "vec:resize"); D.reset(); expect(D.getSize() == 0 && D.isEmpty(), "vec:reset"); D.resize(2, 1.5); expect(D.getSize() == 2 && D(1) == 1.5, "vec:resize-after-reset"); }
	{ vec D(A), E(C); D.swap(E); expect(rv::sameBits(sv(D), c) && rv::sameBits(sv(E), a), "vec:swap"); expect(rv::sameBits(A.toStdVector(), a), "vec:toStd"); vec F; F.fromStdVector(c); expect(rv::sameBits(sv(F), c), "vec:fromStd"); D.fill(k); for (double x : sv(D)) expect(x == k, "vec:fill"); E.fillWithIntegersAscendingOrder(); for (int i = 0; i < n; i++) expect(E(i) == i + 1, "vec:integers"); }
	if (n) { dv lo(n), hi(n); for (int i = 0; i < n; i++) { lo[i] = r.uni(-5, 5); hi[i] = lo[i] + r.logu(1e-3, 1e3); } vec Lo = mv(lo), Hi = mv(hi), N = A.normalizeVector(Lo, Hi), Bk = N.denormalizeVector(Lo, Hi), NF = A.normalizeVectorFast(Lo, Hi - Lo), BF = NF.denormalizeVectorFast(Lo, Hi - Lo);
		for (int i = 0; i < n; i++) { ld w = ((ld)a[i] - lo[i]) / ((ld)hi[i] - lo[i]) / n, sc = (fabs(a[i]) + fabs(lo[i])) / (hi[i] - lo[i]) / n * (1 + (fabs(hi[i]) + fabs(lo[i])) / (hi[i] - lo[i])); near("vec:normalize", N(i), w, sc); near("vec:normalizeFast", NF(i), w, sc); near("vec:denormalize", Bk(i), a[i], 10 * n * sc * (hi[i] - lo[i]) + fabs(a[i])); near("vec:denormalizeFast", BF(i), a[i], 10 * n * sc * (hi[i] - lo[i]) + fabs(a[i])); }
		double x0 = lo[0], x1 = hi[0]; vec M = A.normalizeVector(x0, x1); for (int i = 0; i < n; i++) near("vec:normalize-scalar", M(i), ((ld)a[i] - x0) / ((ld)x1 - x0) / n, (fabs(a[i]) + fabs(x0)) / (x1 - x0) * (1 + (fabs(x1) + fabs(x0)) / (x1 - x0))); }
	// size mismatches and ranges
	rv::count("invalid operations", 9);
	expect(throws([&] { A + C; }) && throws([&] { A - C; }) && throws([&] { A.dot(C); }) && throws([&] { A.dotNoLib(C); }) && throws([&] { vec::dotProduct(A, C); }) && throws([&] { (void)(A < C); }) && throws([&] { (void)(A > C); }) && throws([&] { vec::scaleAndAdd(A, 1, C); }) && throws([&] { A.is_between(C, C); }) && !A.is_equal(C), "vec:size-mismatch-accepted");
	expect(throws([&] { A(n) = 1; }) && throws([&] { A.get(n + r.in(0, 5)); }) && throws([&] { A.set(n, 1); }) && throws([&] { const vec& D = A; D(UINT_MAX); }) && throws([&] { A(-1) = 1; }), "vec:index-accepted");
	expect(rv::sameBits(sv(A), a) && rv::sameBits(sv(B), b) && rv::sameBits(sv(C), c), "vec:operand-changed");
}

static void matrixSequence(Rng& r) {
	unsigned nc = dimn(r), n0 = dimn(r); rm R = rmat(r, n0, nc); mat M = mm(R, nc);
	std::string trace;
	for (int step = 0; step < 25; step++) {
		int n = R.size(); int op = r.in(0, 15); std::string name;
		if (nc == 0 && n == 0) { op = r.chance(0.5) ? 0 : 1; }
		switch (op) {
		case 0: { name = "addRow"; int pos = (n && nc) ? r.in(-1, n) : (r.chance(0.5) ? 0 : -1); if (n > 0 && nc == 0) { continue; } int w = n ? (int)nc : (nc ? (int)nc : r.in(1, 6)); dv x = rvec(r, w); M.addRow(mv(x), pos); if (!n) nc = w; R.insert(pos < 0 ? R.end() : R.begin() + pos, x); break; }
		case 1: { name = "addColumn"; if (n == 0 && nc > 0) continue; int h = n ? n : r.in(1, 6); int pos = (n && nc) ? r.in(-1, nc) : (r.chance(0.5) ? 0 : -1); dv x = rvec(r, h); M.addColumn(mv(x), pos); if (!n) R.assign(h, dv()); for (int i = 0; i < h; i++) R[i].insert(pos < 0 ? R[i].end() : R[i].begin() + pos, x[i]); nc++; break; }
		case 2: { name = "deleteRow"; if (!n) continue; int pos = r.in(-1, n - 1); M.deleteRow(pos); R.erase(pos < 0 ? R.end() - 1 : R.begin() + pos); if (R.empty()) nc = 0; break; }
		case 3: { name = "deleteRows"; if (!n) continue; std::vector<int> d; int c = r.in(0, std::min(n, 4)); for (int i = 0; i < c; i++) d.push_back(r.in(0, n - 1)); if (r.chance(0.05)) { d.clear(); for (int i = 0; i < n; i++) d.push_back(i); } M.deleteRows(d); std::set<int> sd(d.begin(), d.end()); rm Q; for (int i = 0; i < n; i++) if (!sd.count(i)) Q.push_back(R[i]); R = Q; if (R.empty()) nc = 0; break; }
		case 4: { name = "setRow"; if (!n) continue; int i = r.in(0, n - 1); dv x = rvec(r, nc); M.setRow(mv(x), i); R[i] = x; break; }
		case 5: { name = "setCol"; if (!nc) continue; int j = r.in(0, nc - 1); dv x = rvec(r, n); M.setCol(mv(x), j); for (int i = 0; i < n; i++) R[i][j] = x[i]; break; }
		case 6: { name = "resize"; int a = dimn(r), b = dimn(r); M.resize(a, b); for (auto& x : R) x.resize(b, 0.0); R.resize(a, dv(b, 0.0)); nc = b; break; }
		case 7: { name = "transpose"; mat T = M.transpose(); rm Q(nc, dv(n)); for (int i = 0; i < n; i++) for (unsigned j = 0; j < nc; j++) Q[j][i] = R[i][j]; if (r.chance(0.5)) M = T; else M = M.transposeNaive(); R = Q; nc = n; break; }
		case 8: { name = "concatenateRowWise"; int k = dimn(r); if (!nc || !n) continue; rm O = rmat(r, k, nc); M = M.concatenateRowWise(mm(O, nc)); for (auto& x : O) R.push_back(x); break; }
		case 9: { name = "concatenateColumnWise"; int k = dimn(r); if (!n || !nc) continue; rm O = rmat(r, n, k); M = M.concatenateColumnWise(mm(O, k)); for (int i = 0; i < n; i++) R[i].insert(R[i].end(), O[i].begin(), O[i].end()); nc += k; break; }
		case 10: { name = "submat"; if (!n || !nc) continue; unsigned a = r.in(0, n - 1), b = r.in(a, n - 1), c = r.in(0, nc - 1), d = r.in(c, nc - 1); mat S = M.submat(a, b, c, d); rm Q; for (unsigned i = a; i <= b; i++) Q.push_back(dv(R[i].begin() + c, R[i].begin() + d + 1)); if (!same(sm(S), Q)) rv::viol(P, "mat:submat", show(R)); if (r.chance(0.2)) { M = S; R = Q; nc = d - c + 1; } break; }
		case 11: { name = "addEpsilonToDiagonal"; double e = r.uni(-1, 1); M.addEpsilonToDiagonal(e); for (int i = 0; i < n && i < (int)nc; i++) R[i][i] += e; break; }
		case 12: { name = "shuffleRows"; M.shuffleRows(); rm Q = sm(M), a = Q, b = R; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) { rv::viol(P, "mat:shuffleRows", show(R) + " -> " + show(Q)); } R = Q; break; }
		case 13: { name = "fill"; double v = val(r); M.fill(v); for (auto& x : R) for (auto& y : x) y = v; break; }
		case 14: { name = "copy/move"; mat C(M); mat D; D = C; mat E(std::move(C)); mat F; F = std::move(D); if (n && nc) { E(0, 0) = 123; } if (!same(sm(M), R) || !same(sm(F), R)) rv::viol(P, "mat:copy-independent", trace); M = F; M = M; if (n && nc) F(n - 1, nc - 1) = -7; break; }
		default: { name = "element"; if (!n || !nc) continue; int i = r.in(0, n - 1), j = r.in(0, nc - 1); double v = val(r); M(i, j) = v; R[i][j] = v; break; }
		}
		trace += name + " "; rv::count("op " + name);
		if (M.getNRows() != R.size() || M.getNCols() != nc || !same(sm(M), R)) { rv::viol(P, "mat:" + name, "got " + show(sm(M)) + " expected " + show(R) + " after " + trace); return; }
		rv::distinct("seq " + name + " " + std::to_string(std::min(9, (int)R.size())) + "x" + std::to_string(std::min(9u, nc)));
		if (r.chance(0.35)) {
			unsigned N = R.size();
			switch (r.in(0, 13)) {
			case 0: refused("addRow:position", M, nc, [&](mat& m) { m.addRow(vec(nc ? nc : 3), N + 1 + r.in(0, 3)); }); break;
			case 1: refused("addRow:negative", M, nc, [&](mat& m) { m.addRow(vec(nc ? nc : 3), -2 - r.in(0, 3)); }); break;
			case 2: if (N && nc) refused("addRow:size", M, nc, [&](mat& m) { m.addRow(vec(nc + 1), r.in(-1, N)); }); break;
			case 3: refused("addColumn:position", M, nc, [&](mat& m) { m.addColumn(vec(N ? N : 3), nc + 1 + r.in(0, 3)); }); break;
			case 4: refused("addColumn:negative", M, nc, [&](mat& m) { m.addColumn(vec(N ? N : 3), -2 - r.in(0, 3)); }); break;
			case 5: if (N && nc) refused("addColumn:size", M, nc, [&](mat& m) { m.addColumn(vec(N + 1), r.in(-1, nc)); }); break;
			case 6: refused("deleteRow:range", M, nc, [&](mat& m) { m.deleteRow(N + r.in(0, 3)); }); break;
			case 7: refused("deleteRow:negative", M, nc, [&](mat& m) { m.deleteRow(N ? -2 - r.in(0, 3) : -1); }); break;
			case 8: refused("deleteRows:range", M, nc, [&](mat& m) { m.deleteRows({0, (int)N}); }); refused("deleteRows:negative", M, nc, [&](mat& m) { m.deleteRows({-1}); }); break;
			case 9: refused("setRow", M, nc, [&](mat& m) { m.setRow(vec(nc), N); }); refused("setRow:size", M, nc, [&](mat& m) { m.setRow(vec(nc + 1), 0); }); break;
			case 10: refused("setCol", M, nc, [&](mat& m) { m.setCol(vec(N), nc); }); refused("setCol:size", M, nc, [&](mat& m) { m.setCol(vec(N + 1), 0); }); break;
			case 11: refused("getRow", M, nc, [&](mat& m) { m.getRow(N); }); refused("getRow:negative", M, nc, [&](mat& m) { m.getRow(-2); }); refused("getCol", M, nc, [&](mat& m) { m.getCol(nc); }); refused("getCol:negative", M, nc, [&](mat& m) { m.getCol(-2); }); break;
			case 12: refused("element", M, nc, [&](mat& m) { m(N, 0) = 1; }); refused("element:col", M, nc, [&](mat& m) { m(0, nc) = 1; }); refused("element:negative", M, nc, [&](mat& m) { m(-1, 0) = 1; }); break;
			case 13: refused("submat:rows", M, nc, [&](mat& m) { m.submat(0, N, 0, 0); }); refused("submat:cols", M, nc, [&](mat& m) { m.submat(0, 0, 0, nc); }); if (N > 1) refused("submat:order", M, nc, [&](mat& m) { m.submat(1, 0, 0, 0); }); break;
			}
			if (!same(sm(M), R)) return;
		}
	}
}

static void matrixFunctions(Rng& r) {
	int n = dimn(r, false), m = dimn(r, false), k = dimn(r, false); rm a = rmat(r, n, m), a2 = rmat(r, n, m), b = rmat(r, m, k);
	mat A = mm(a, m), A2 = mm(a2, m), B = mm(b, k); dv x = rvec(r, m); vec X = mv(x);
	rv::distinct("fn " + std::to_string(n) + "x" + std::to_string(m) + "x" + std::to_string(k)); rv::count("matrices");
	mat S = A + A2, D = A - A2; double f = val(r); mat F = A * f; mat Pd = A * B, P2 = A.matMatProductNaive(B), P3 = A.matMatProduct(B), P4 = A.matMatProductOpenBlas(B); vec V = A.matVecProduct(X), V2 = A.matVecProductNaive(X), V3 = A.matVecProductOpenBlas(X);
	expect(Pd.getNRows() == (unsigned)n && Pd.getNCols() == (unsigned)k && V.getSize() == (unsigned)n, "mat:product-shape");
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < m; j++) { near("mat:add", S(i, j), (ld)a[i][j] + a2[i][j], fabs(a[i][j]) + fabs(a2[i][j])); near("mat:sub", D(i, j), (ld)a[i][j] - a2[i][j], fabs(a[i][j]) + fabs(a2[i][j])); near("mat:scale", F(i, j), (ld)a[i][j] * f, fabs(a[i][j] * f)); }
		ld s = 0, q = 0; for (int j = 0; j < m; j++) { s += (ld)a[i][j] * x[j]; q += fabsl((ld)a[i][j] * x[j]); } near("mat:vec-product", V(i), s, q); near("mat:vec-product-naive", V2(i), s, q); near("mat:vec-product-blas", V3(i), s, q);
		for (int l = 0; l < k; l++) { ld t = 0, u = 0; for (int j = 0; j < m; j++) { t += (ld)a[i][j] * b[j][l]; u += fabsl((ld)a[i][j] * b[j][l]); } near("mat:product", Pd(i, l), t, u); near("mat:product-naive", P2(i, l), t, u); near("mat:product2", P3(i, l), t, u); near("mat:product-blas", P4(i, l), t, u); }
	}
	for (int i = 0; i < n; i++) expect(rv::sameBits(sv(A.getRow(i)), a[i]), "mat:getRow"); expect(rv::sameBits(sv(A.getRow(-1)), a[n - 1]), "mat:getRow-last");
	for (int j = 0; j < m; j++) { dv c(n); for (int i = 0; i < n; i++) c[i] = a[i][j]; expect(rv::sameBits(sv(A.getCol(j)), c), "mat:getCol"); if (j == m - 1) expect(rv::sameBits(sv(A.getCol(-1)), c), "mat:getCol-last"); }
	// row search
	{ int i = r.in(0, n - 1); double tol = r.logu(1e-9, 1e-1); dv q = a[i]; double off = r.chance(0.5) ? 0.4 : 3.0; int j = r.in(0, m - 1); q[j] += off * tol;
		int first = -1; for (int t = 0; t < n && first < 0; t++) { bool hit = true, edge = false; for (int c = 0; c < m; c++) { double d = fabs(a[t][c] - q[c]); if (d > tol) hit = false; if (fabs(d - tol) < 1e-3 * tol) edge = true; } if (edge) { first = -2; break; } if (hit) first = t; }
		if (first != -2) { expect(A.findRowIndex(mv(q), tol) == first, "mat:findRowIndex", "row " + std::to_string(i)); expect(A.isRowInMatrix(mv(q), tol) == (first >= 0), "mat:isRowInMatrix"); }
		expect(!A.isRowInMatrix(vec(m + 1)) && throws([&] { A.findRowIndex(vec(m + 1)); }), "mat:findRow-size"); }
	{ rm q = a; int i = r.in(0, n - 1), j = r.in(0, m - 1); q[i][j] += 1e-3; expect(A.isEqual(A) && !A.isEqual(mm(q, m)) && A.isEqual(mm(q, m), 2e-3), "mat:isEqual"); if (n != m) expect(!A.isEqual(A.transpose(), 1e300), "mat:isEqual-shape"); }
	{ rm s(n, dv(n)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) s[i][j] = s[j][i] = val(r); mat Sy = mm(s, n); expect(Sy.isSymmetric(), "mat:isSymmetric"); if (n > 1) { int i = r.in(1, n - 1), j = r.in(0, i - 1); Sy(i, j) += 1e-2; expect(!Sy.isSymmetric() && Sy.isSymmetric(1.1e-2), "mat:isSymmetric-neg"); } dv d = sv(mm(s, n).diag()); for (int i = 0; i < n; i++) expect(d[i] == s[i][i], "mat:diag"); mat E = mm(s, n); E.eye(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) expect(E(i, j) == (i == j ? 1.0 : 0.0), "mat:eye"); expect(throws([&] { Sy.isSymmetric(-1.0); }), "mat:isSymmetric-tol"); mat G(n, n); G.generateRandomSymmetric(); expect(G.isSymmetric(0), "mat:randomSymmetric"); }
	if (n != m) { expect(throws([&] { A.diag(); }) && throws([&] { mat E(A); E.eye(); }) && !A.isSymmetric() && throws([&] { A.invert(); }) && throws([&] { int q; A.cholesky(q); }) && throws([&] { A.solve(vec(n)); }), "mat:nonsquare-accepted"); }
	{ const mat D(A); int p = r.in(0, n - 1), q = r.in(0, m - 1); expect(throws([&] { (void)D(p, m + r.in(0, 3)); }) && throws([&] { (void)D(n + r.in(0, 3), q); }) && throws([&] { mat E(A); E(p, m + r.in(0, 3)) = 1; }) && throws([&] { mat E(A); E(n + r.in(0, 3), q) = 1; }), "mat:index-accepted"); mat Z((unsigned)n, (unsigned)m); vec z((unsigned)n); bool zero = true; for (int i = 0; i < n; i++) { zero &= z(i) == 0; for (int j = 0; j < m; j++) zero &= Z(i, j) == 0; } expect(zero, "mat:new-not-zero"); }
	{ dv lo(m), hi(m); for (int j = 0; j < m; j++) { lo[j] = r.uni(-5, 5); hi[j] = lo[j] + r.logu(1e-3, 1e3); } mat N = A.normalizeMatrix(mv(lo), mv(hi)), N2 = A.normalizeMatrix(lo[0], hi[0]); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { near("mat:normalize", N(i, j), ((ld)a[i][j] - lo[j]) / ((ld)hi[j] - lo[j]) / m, (fabs(a[i][j]) + fabs(lo[j])) / (hi[j] - lo[j]) * (1 + (fabs(hi[j]) + fabs(lo[j])) / (hi[j] - lo[j]))); near("mat:normalize-scalar", N2(i, j), ((ld)a[i][j] - lo[0]) / ((ld)hi[0] - lo[0]) / m, (fabs(a[i][j]) + fabs(lo[0])) / (hi[0] - lo[0]) * (1 + (fabs(hi[0]) + fabs(lo[0])) / (hi[0] - lo[0]))); }
		hi[r.in(0, m - 1)] = -1e9; expect(throws([&] { A.normalizeMatrix(mv(lo), mv(hi)); }) && throws([&] { A.normalizeMatrix(1.0, 1.0); }) && throws([&] { A.normalizeMatrix(vec(m + 1), vec(m + 1, 1.0)); }), "mat:normalize-invalid"); }
	rv::count("invalid operations", 8);
	expect(throws([&] { A + mat(n + 1, m); }) && throws([&] { A - mat(n, m + 1); }) && throws([&] { A * mat(m + 1, k); }) && throws([&] { A.matMatProduct(mat(m + 1, k)); }) && throws([&] { A.matVecProduct(vec(m + 1)); }) && throws([&] { A.concatenateRowWise(mat(2, m + 1)); }) && throws([&] { A.concatenateColumnWise(mat(n + 1, 2)); }), "mat:shape-accepted");
	expect(same(sm(A), a) && same(sm(B), b), "mat:operand-changed");
	{ mat Z; mat Q = Z.concatenateRowWise(A); expect(same(sm(Q), a), "mat:concat-empty"); Q = A.concatenateRowWise(Z); expect(same(sm(Q), a), "mat:concat-empty2"); Q = Z.concatenateColumnWise(A); expect(same(sm(Q), a), "mat:concat-empty3"); Q.reset(); expect(Q.isEmpty() && Q.getNRows() == 0, "mat:reset"); Q.addRow(mv(x)); expect(Q.getNRows() == 1 && rv::sameBits(sv(Q.getRow(0)), x), "mat:addRow-after-reset"); }
	if (n * m < 60) { std::vector<double> flat; for (auto& q : a) flat.insert(flat.end(), q.begin(), q.end()); std::string t = X.toString(3); char bb[64]; snprintf(bb, 64, "%.3f", x[0]); expect(t.compare(0, strlen(bb), bb) == 0 && std::count(t.begin(), t.end(), ',') == m - 1, "vec:toString", t); A.print("m"); X.print("x"); mat().print(); vec().print(); }
}

// ---------------------------------------------------------------- factorisations (L02)
static ld mnorm(const rm& a) { ld q = 0; for (auto& x : a) { ld s = 0; for (double y : x) s += fabsl(y); q = std::max(q, s); } return q; }
// LU with partial pivoting in long double: inverse, log|det|, singularity
static bool ldinverse(const rm& a, std::vector<std::vector<ld>>& inv, ld& logdet) {
	int n = a.size(); std::vector<std::vector<ld>> w(n, std::vector<ld>(2 * n, 0)); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) w[i][j] = a[i][j]; w[i][n + i] = 1; } logdet = 0;
	for (int c = 0; c < n; c++) { int p = c; for (int i = c + 1; i < n; i++) if (fabsl(w[i][c]) > fabsl(w[p][c])) p = i; if (w[p][c] == 0) return false; std::swap(w[p], w[c]); logdet += logl(fabsl(w[c][c])); ld d = w[c][c]; for (auto& x : w[c]) x /= d; for (int i = 0; i < n; i++) if (i != c) { ld f = w[i][c]; if (f != 0) for (int j = 0; j < 2 * n; j++) w[i][j] -= f * w[c][j]; } }
	inv.assign(n, std::vector<ld>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv[i][j] = w[i][n + j]; return true;
}
static void backward(const std::string& what, const rm& a, const dv& x, const dv& b, ld tol) {
	int n = a.size(); ld xn = 0, bn = 0; for (double q : x) xn = std::max(xn, fabsl((ld)q)); for (double q : b) bn = std::max(bn, fabsl((ld)q)); ld res = 0; for (int i = 0; i < n; i++) { ld s = -b[i]; for (int j = 0; j < n; j++) s += (ld)a[i][j] * x[j]; res = std::max(res, fabsl(s)); }
	rv::count("solutions"); bool fin = true; for (double q : x) fin &= std::isfinite(q);
	if (!fin || (int)x.size() != n || !(res <= tol * (mnorm(a) * xn + bn) + 1e-300L)) rv::viol("L02", what, "n=" + std::to_string(n) + " residual " + rv::fmt((double)res) + " |A||x|+|b|=" + rv::fmt((double)(mnorm(a) * xn + bn)));
}
static void factor(Rng& r) {
	P = "L02"; int n = r.chance(0.1) ? 1 : r.chance(0.15) ? r.in(20, 60) : r.in(2, 12); ld eps = 1e-14L * n * n;
	int kind = r.in(0, 5); rm a(n, dv(n)); std::string kn; double cond = 1;
	if (kind == 0) { kn = "spd"; rm q = rmat(r, n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { ld s = 0; for (int k = 0; k < n; k++) s += (ld)q[i][k] * q[j][k]; a[i][j] = a[j][i] = s; } double t = 0; for (int i = 0; i < n; i++) t = std::max(t, a[i][i]); double e = (t > 0 ? t : 1) * r.logu(1e-6, 1); for (int i = 0; i < n; i++) a[i][i] += e; }
	else if (kind == 1) { kn = "correlation"; int d = r.in(1, 4); rm x(n); for (auto& p : x) { p.resize(d); for (auto& y : p) y = r.u() / d; } double th = r.logu(1e-2, 20), g = r.chance(0.5) ? 2 : r.uni(1, 2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < d; k++) s += th * pow(fabs(x[i][k] - x[j][k]), g); a[i][j] = exp(-s) + (i == j ? 1e-7 : 0); } }
	else if (kind == 2) { kn = "scaled-spd"; double sc = r.logu(1e-8, 1e8); rm q = rmat(r, n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { ld s = 0; for (int k = 0; k < n; k++) s += (ld)(q[i][k] / 10) * (q[j][k] / 10); a[i][j] = a[j][i] = s * sc; } double t = 0; for (int i = 0; i < n; i++) t = std::max(t, a[i][i]); for (int i = 0; i < n; i++) a[i][i] += t * 1e-3 + sc * 1e-3; }
	else if (kind == 3) { kn = "indefinite"; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a[i][j] = a[j][i] = r.uni(-1, 1); int i = r.in(0, n - 1); if (n == 1 || r.chance(0.5)) a[i][i] = -fabs(a[i][i]) - 0.1; else { int j = (i + 1) % n; a[i][i] = a[j][j] = 0.5; a[i][j] = a[j][i] = 2; } }
	else if (kind == 4) { kn = "general"; a = rmat(r, n, n); for (auto& x : a) for (auto& y : x) y = r.uni(-1, 1) * (r.chance(0.2) ? 100 : 1); if (n > 1 && r.chance(0.5)) a[0][0] = 0; }
	else { kn = "singular"; for (auto& x : a) for (auto& y : x) y = r.in(-3, 3); int z = r.in(0, 2); int i = r.in(0, n - 1); if (z == 0 || n == 1) for (auto& y : a[i]) y = 0; else if (z == 1) for (auto& x : a) x[i] = 0; else { for (auto& x : a) for (auto& y : x) y = 0; } }
	rv::count("kind " + kn); rv::distinct(kn + " n=" + std::to_string(n));
	(void)cond; mat A = mm(a, n); dv b = rvec(r, n); vec B = mv(b);
	std::vector<std::vector<ld>> inv; ld logdet = 0; bool regular = ldinverse(a, inv, logdet); ld in = 0; if (regular) for (auto& x : inv) { ld s = 0; for (ld y : x) s += fabsl(y); in = std::max(in, s); } ld kappa = regular ? in * mnorm(a) : INFINITY;
	if (kn == "spd" || kn == "correlation" || kn == "scaled-spd") {
		if (kappa > 1e12L) { rv::count("skipped ill-conditioned"); return; }
		CholeskySystem C(n); C.setMatrix(A); C.factorize(); rv::count("factorisations");
		if (!C.isFactorizationDone()) { rv::viol(P, "cholesky-refused-spd", kn + " n=" + std::to_string(n) + " cond " + rv::fmt((double)kappa)); return; }
		for (int v = 0; v < 3; v++) { int ret = 0; mat Lm = v == 0 ? C.getFactorizedMatrix() : v == 1 ? A.choleskyNaive(ret) : A.cholesky(ret); if (v && ret != 1) { rv::viol(P, "cholesky-refused-spd-variant", kn); continue; } rm l = sm(Lm); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (j > i && l[i][j] != 0) rv::viol(P, "cholesky-not-lower", kn); ld s = 0; for (int k = 0; k <= std::min(i, j); k++) s += (ld)l[i][k] * l[j][k]; if (!(fabsl(s - a[i][j]) <= eps * 10 * sqrtl((ld)a[i][i] * a[j][j]))) rv::viol(P, "cholesky-factor", kn + " variant " + std::to_string(v) + " entry " + std::to_string(i) + "," + std::to_string(j)); } if (v == 1) { backward("cholesky-solve-naive", a, sv(Lm.solveCholeskyNaive(B)), b, 100 * eps); } if (v == 2) { backward("mat-solveCholesky", a, sv(Lm.solveCholesky(B)), b, 100 * eps); } }
		backward("cholesky-solve", a, sv(C.solveLinearSystem(B)), b, 100 * eps);
		double lg = C.calculateLogDeterminant(); if (!(fabsl(lg - logdet) <= eps * 10 * (fabsl(logdet) + n * kappa * 1e-2L + n))) rv::viol(P, "log-determinant", "got " + rv::fmt(lg) + " expected " + rv::fmt((double)logdet) + " cond " + rv::fmt((double)kappa));
		if (fabsl(logdet) < 300) { double de = C.calculateDeterminant(); if (!(fabsl(logl(de) - logdet) <= eps * 10 * (fabsl(logdet) + n * kappa * 1e-2L + n))) rv::viol(P, "determinant", rv::fmt(de) + " vs exp " + rv::fmt((double)logdet)); }
		if (!same(sm(C.getMatrix()), a)) rv::viol(P, "cholesky-changed-matrix", kn);
		// reuse for another matrix
		if (r.chance(0.3)) { rm a2 = a; for (int i = 0; i < n; i++) a2[i][i] *= 2; C.setMatrix(mm(a2, n)); if (C.isFactorizationDone()) rv::viol(P, "stale-factorisation-flag", kn); C.factorize(); if (C.isFactorizationDone()) backward("cholesky-resolve", a2, sv(C.solveLinearSystem(B)), b, 100 * eps); else rv::viol(P, "cholesky-refused-spd", kn); rm bad = a; bad[0][0] = -1; C.setMatrix(mm(bad, n)); C.factorize(); if (C.isFactorizationDone()) rv::viol(P, "indefinite-accepted-after-reuse", kn); }
	}
	if (r.chance(0.05)) { rv::Quiet q; A.print("A", r.in(0, 15)); A.print(); B.print("b"); mat().print("empty"); vec().print(); if (B.toString().empty()) rv::viol(P, "empty-text", ""); mat::printPivot({2, 0, 1}); rv::count("printed matrices"); }
	if (r.chance(0.1)) { mat R(n, n); if (r.chance(0.5)) { R.generateRandomPositiveDefinite(); rv::count("random positive definite matrices"); rm q = sm(R); dv x = rvec(r, n); ld s = 0, mag = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (std::fabs(q[i][j] - q[j][i]) > 1e-13 * (1 + std::fabs(q[i][j]))) rv::viol(P, "random-matrix-not-symmetric", ""); s += (ld)x[i] * q[i][j] * x[j]; mag += fabsl((ld)x[i] * q[i][j] * x[j]); } if (s < -1e-12L * mag) rv::viol(P, "random-matrix-not-positive", ""); } else { R.generateRandomCorrelationMatrix(); rv::count("random correlation matrices"); rm q = sm(R); for (int i = 0; i < n; i++) { if (q[i][i] != 1) rv::viol(P, "random-correlation-diagonal", ""); for (int j = 0; j < n; j++) if (q[i][j] != q[j][i] || !(q[i][j] >= 0 && q[i][j] <= 1)) rv::viol(P, "random-correlation-entry", rv::fmt(q[i][j])); }
			if (n > 1 && n <= 6) { CholeskySystem C(n); C.setMatrix(R); C.factorize(); if (C.isFactorizationDone()) { dv b3 = rvec(r, n); backward("random-correlation-solve", q, sv(C.solveLinearSystem(mv(b3))), b3, 1000 * eps); } } }
		mat N(n, n + 1); int rt; std::vector<int> pv(n + 1); if (!throws([&] { N.generateRandomPositiveDefinite(); }) || !throws([&] { N.generateRandomCorrelationMatrix(); }) || !throws([&] { N.generateRandomSymmetric(); }) || !throws([&] { N.lu(pv.data(), rt); }) || !throws([&] { N.luNaive(pv.data(), rt); }) || !throws([&] { N.solveLU(pv.data(), B); }) || !throws([&] { N.solveLUNaive(pv.data(), B); }) || !throws([&] { N.solve(B); }) || !throws([&] { N.invert(); }) || !throws([&] { N.cholesky(rt); }) || !throws([&] { N.normalizeMatrix(vec(n + 1), vec(n)); }) || !throws([&] { A.luNaive(nullptr, rt); })) rv::viol(P, "shape-accepted", "n=" + std::to_string(n)); rv::count("invalid shapes"); }
	// the systems as objects: sizes, matrices and flags over changes of the size and of the matrix
	if (kappa < 1e8L && r.chance(0.5)) {
		bool chol = kn == "spd" || kn == "scaled-spd" || kn == "correlation"; int m = r.in(1, 8), m2 = r.in(1, 8); rv::count("life cycles of systems"); CholeskySystem C; LUSystem S(m); C.setDimension(m);
		auto dims = [&](int k, const char* w) { if (C.getDimension() != (unsigned)k || !C.checkDimension(k) || C.checkDimension(k + 1) || S.getDimension() != k || !S.checkDimension(k) || S.checkDimension(k + 1) || (int)C.getMatrix().getNRows() != k || (int)S.getMatrix().getNCols() != k) rv::viol(P, std::string("system-size-") + w, std::to_string(k)); };
		dims(m, "initial"); if (chol) { C.setMatrix(A); C.factorize(); } else C.setMatrix(A); S.setMatrix(A); S.factorize(); dims(n, "matrix"); if (!same(sm(S.getMatrix()), a)) rv::viol(P, "lu-changed-matrix", kn);
		if (S.isFactorizationDone()) { rm w = sm(S.getFactorizedMatrix()); std::vector<char> used(n, 0); for (int i = 0; i < n; i++) { int hit = -1; for (int q = 0; q < n && hit < 0; q++) if (!used[q]) { bool ok = true; for (int j = 0; j < n && ok; j++) { ld t = 0, mag = 0; for (int k = 0; k <= std::min(i, j); k++) { ld v = (ld)(k == i ? 1 : w[i][k]) * w[k][j]; t += v; mag += fabsl(v); } ok = fabsl(t - a[q][j]) <= 1000 * eps * (mag + mnorm(a)); } if (ok) hit = q; } if (hit < 0) { rv::viol(P, "lu-factors", kn + " row " + std::to_string(i) + " of the product is no row of the matrix"); break; } used[hit] = 1; } rv::count("LU products"); }
		C.setDimension(m2); S.setDimension(m2); dims(m2, "changed"); if (C.isFactorizationDone() || S.isFactorizationDone()) rv::viol(P, "stale-factorisation-flag", "after a change of the dimension");
		S.setMatrix(A); if (S.isFactorizationDone()) rv::viol(P, "stale-factorisation-flag", "after setting a matrix"); S.factorize(); if (!S.isFactorizationDone()) rv::viol(P, "lu-refused-regular", "after a change of the dimension"); else backward("lu-solve-after-resize", a, sv(S.solveLinearSystem(B)), b, 1000 * eps);
		rm z = a; for (auto& q : z[r.in(0, n - 1)]) q = 0; S.setMatrix(mm(z, n)); S.factorize(); if (S.isFactorizationDone()) rv::viol(P, "singular-lu-accepted", "after a regular matrix");
		if (!throws([&] { LUSystem T(0); }) || !throws([&] { S.setDimension(0); })) rv::viol(P, "zero-dimension-accepted", "");
	}
	if (kn == "indefinite") { CholeskySystem C(n); C.setMatrix(A); C.factorize(); rv::count("factorisations"); if (C.isFactorizationDone()) rv::viol(P, "indefinite-accepted", show(a)); int ret = 0; A.choleskyNaive(ret); if (ret != -1) rv::viol(P, "indefinite-accepted-naive", show(a)); ret = 0; A.cholesky(ret); if (ret != -1) rv::viol(P, "indefinite-accepted-mat", show(a)); }
	if (kn == "singular") {
		rv::count("singular");
		bool zero = true; for (auto& x : a) for (double y : x) zero &= y == 0;
		if (!throws([&] { A.solve(B); })) rv::viol(P, "singular-solved", show(a)); if (!throws([&] { A.invert(); })) rv::viol(P, "singular-inverted", show(a)); if (!throws([&] { A.invertNaive(); })) rv::viol(P, "singular-inverted-naive", show(a));
		LUSystem S(n); S.setMatrix(A); S.factorize(); if (S.isFactorizationDone()) rv::viol(P, "singular-lu-accepted", show(a));
		std::vector<int> pv(n); int rt = 0; mat W = A.luNaive(pv.data(), rt); if (rt != -1) rv::viol(P, "singular-lu-naive-accepted", show(a)); mat W2(W); (void)sm(W2);
		if (zero) { int ret = 0; A.choleskyNaive(ret); if (ret == 1) rv::viol(P, "singular-cholesky-naive-accepted", "zero matrix"); CholeskySystem C; C.setMatrix(A); C.factorize(); if (C.isFactorizationDone()) rv::viol(P, "singular-cholesky-accepted", "zero matrix"); }
		return;
	}
	// LU family on every regular matrix
	if (kappa < 1e8L) {
		backward("solve", a, sv(A.solve(B)), b, 1000 * eps);
		LUSystem S(n); S.setMatrix(A); S.factorize(); rv::count("factorisations"); if (!S.isFactorizationDone()) { rv::viol(P, "lu-refused-regular", show(a)); return; } backward("lu-solve", a, sv(S.solveLinearSystem(B)), b, 1000 * eps); dv b2 = rvec(r, n); backward("lu-solve-again", a, sv(S.solveLinearSystem(mv(b2))), b2, 1000 * eps);
		bool naiveOk = in < 1e8L;   // the built-in LU rejects pivots below 1e-9
		for (int v = 0; v < 2; v++) { if (v == 1 && !naiveOk) continue; mat I = v ? A.invertNaive() : A.invert(); ld worst = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) worst = std::max(worst, fabsl(I(i, j) - inv[i][j])); if (!(worst <= 1000 * eps * kappa * in)) rv::viol(P, v ? "inverse-naive" : "inverse", "error " + rv::fmt((double)worst) + " cond " + rv::fmt((double)kappa)); rv::count("inverses"); }
		if (naiveOk) { std::vector<int> pv(n); int rt = 0; mat W = A.luNaive(pv.data(), rt); if (rt != 1) rv::viol(P, "lu-naive-refused", show(a)); else backward("lu-naive-solve", a, sv(W.solveLUNaive(pv.data(), B)), b, 1000 * eps); }
		{ std::vector<int> pv(n); int rt = 0; mat W = A.lu(pv.data(), rt); if (rt != 1) rv::viol(P, "lu-refused", show(a)); else backward("mat-solveLU", a, sv(W.solveLU(pv.data(), B)), b, 1000 * eps); }
		if (!throws([&] { S.solveLinearSystem(vec(n + 1)); }) || !throws([&] { A.solve(vec(n + 1)); })) rv::viol(P, "wrong-rhs-accepted", "");
	}
	if (!same(sm(A), a)) rv::viol(P, "operand-changed", kn);
	rv::sample("{\"kind\": " + rv::jstr(kn) + ", \"n\": " + std::to_string(n) + ", \"cond\": " + rv::fmt((double)std::min(kappa, (ld)1e300)) + "}");
}

// ---------------------------------------------------------------- CSV (L03)
static std::string trim6(double x, int p) { char b[400]; snprintf(b, 400, "%.*f", p, x); return b; }
static void csv(Rng& r) {
	P = "L03"; std::string f = "t.csv"; unlink(f.c_str());
	int n = dimn(r, false), m = dimn(r, false), prec = r.pick(std::vector<int>{0, 1, 3, 6, 9, 12, 15}); bool hdr = r.chance(0.5);
	rm a = rmat(r, n, m); for (auto& x : a) for (auto& y : x) if (fabs(y) > 1e8) y = 1; mat A = mm(a, m); std::vector<std::string> h; for (int j = 0; j < m; j++) h.push_back("col " + std::to_string(j) + "_x");
	rv::distinct("csv " + std::to_string(n) + "x" + std::to_string(m) + " p" + std::to_string(prec) + (hdr ? "h" : ""));
	double tol = 0.5 * pow(10, -prec) * 1.0001;
	try {
		if (hdr) A.saveAsCSV(f, prec, h); else A.saveAsCSV(f, prec); rv::count("files written");
		std::string t = rv::slurp(f); std::stringstream ss(t); std::string line; int row = 0;
		if (hdr) { std::getline(ss, line); std::string w; for (int j = 0; j < m; j++) w += (j ? "," : "") + h[j]; expect(line == w, "header", line); }
		while (std::getline(ss, line)) { std::stringstream ls(line); std::string c; int j = 0; while (std::getline(ls, c, ',')) { if (row < n && j < m) expect(fabs(atof(c.c_str()) - a[row][j]) <= tol + 4e-16 * fabs(a[row][j]), "written-value", c + " for " + rv::fmt(a[row][j])); j++; } expect(j == m, "written-columns", line); row++; }
		expect(row == n, "written-rows", std::to_string(row));
		mat B; if (r.chance(0.5)) B = mat(3, 2, 9.0); B.readFromCSV(f, hdr); rv::count("files read");
		expect(B.getNRows() == (unsigned)n && B.getNCols() == (unsigned)m, "shape", std::to_string(B.getNRows()) + "x" + std::to_string(B.getNCols()));
		if (B.getNRows() == (unsigned)n && B.getNCols() == (unsigned)m) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) expect(fabs(B(i, j) - a[i][j]) <= tol + 4e-16 * fabs(a[i][j]), "round-trip", rv::fmt(B(i, j)) + " for " + rv::fmt(a[i][j]));
		if (!hdr) {
			// append rows; nothing earlier changes, whether or not the file ends with a newline
			bool cut = r.chance(0.4); std::string before = rv::slurp(f); if (cut && n) { before.pop_back(); rv::spit(f, before); }
			int k = r.in(1, 4); rm add = rmat(r, k, m); int p2 = r.pick(std::vector<int>{3, 6, 12}); for (auto& x : add) mv(x).appendToCSV(f, p2);
			std::string after = rv::slurp(f); expect(after.compare(0, before.size(), before) == 0, "append-rewrote");
			mat C; C.readFromCSV(f); expect(C.getNRows() == (unsigned)(n + k) && C.getNCols() == (unsigned)m, cut ? "append-without-final-newline" : "append-shape", std::to_string(C.getNRows()) + " rows");
			if (C.getNRows() == (unsigned)(n + k) && C.getNCols() == (unsigned)m) for (int i = 0; i < k; i++) for (int j = 0; j < m; j++) expect(fabs(C(n + i, j) - add[i][j]) <= 0.50001 * pow(10, -p2) + 4e-16 * fabs(add[i][j]), "appended-value");
			std::string keep = rv::slurp(f); expect(throws([&] { vec(m + 1).appendToCSV(f); }) && rv::slurp(f) == keep, "append-wrong-size"); rv::count("appends", k);
		} else expect(throws([&] { A.saveAsCSV("u.csv", 6, std::vector<std::string>(m + 1, "x")); }), "bad-header-accepted");
		{ unlink("v.csv"); vec V = mv(a[0]); V.saveToCSV("v.csv"); vec W; W.readFromCSV("v.csv"); expect(W.getSize() == (unsigned)m, "vec-size"); if (W.getSize() == (unsigned)m) for (int j = 0; j < m; j++) expect(rv::close(W(j), a[0][j], 6e-6, 1e-300), "vec-round-trip", rv::fmt(W(j)) + " for " + rv::fmt(a[0][j])); }
		{ unlink("n.csv"); mv(a[0]).appendToCSV("n.csv", 9); mat N; N.readFromCSV("n.csv"); expect(N.getNRows() == 1 && N.getNCols() == (unsigned)m, "append-new-file"); }
	} catch (const std::exception& e) { rv::viol(P, "valid-rejected", e.what()); }
	// malformed files: rejected, target unchanged
	std::vector<std::pair<std::string, std::string>> bad = { {"ragged-short", "1,2,3\n4,5\n6,7,8\n"}, {"ragged-long", "1,2\n3,4,5\n"}, {"ragged-first", "1\n2,3\n4,5\n"}, {"text", "1,2\nx,4\n"}, {"suffix", "1,2\n3,4abc\n"}, {"suffix-space", "1,2\n3 7,4\n"}, {"empty-cell", "1,,2\n3,4,5\n"}, {"empty-first-cell", ",1,2\n3,4,5\n"}, {"two-dots", "1.2.3,4\n5,6\n"}, {"empty", ""}, {"hex-garbage", "1,2\n0x,4\n"}, {"semicolon", "1;2\n3;4\n"}, {"blank-line-inside", "1,2\n\n3,4\n"}, {"trailing-comma", "1,2\n3,4,\n"}, {"missing-last", "1,2\n3,\n"}, {"sign-only", "1,2\n-,4\n"}, {"exp-only", "1,2\n1e,4\n"} };
	auto& q = bad[r.in(0, bad.size() - 1)]; rv::spit("b.csv", q.second); rv::count("malformed files");
	mat Q = A; bool t = throws([&] { Q.readFromCSV("b.csv"); }); if (!t) { bool fine = false; if (q.first == "trailing-comma") fine = Q.getNRows() == 2 && Q.getNCols() == 2 && Q(1, 1) == 4; if (!fine) rv::viol(P, "accepted:" + q.first, "read as " + show(sm(Q))); } else if (Q.getNRows() != A.getNRows() || Q.getNCols() != A.getNCols() || !same(sm(Q), a)) rv::viol(P, "changed-by-rejected:" + q.first, show(sm(Q)).substr(0, 300));
	rv::distinct("bad " + q.first);
	{ std::vector<std::pair<std::string, std::string>> bv = { {"text", "1\nx\n"}, {"suffix", "1.5abc\n2\n"}, {"blank", "1\n\n2\n"}, {"two-columns", "1,2\n3,4\n"} }; auto& w = bv[r.in(0, 3)]; rv::spit("bv.csv", w.second); vec V = mv(a[0]); bool tv = throws([&] { V.readFromCSV("bv.csv"); }); if (!tv) rv::viol(P, "vec-accepted:" + w.first, rv::fmt(sv(V))); else expect(rv::sameBits(sv(V), a[0]), "vec-changed-by-rejected"); }
	{ mat Z = A; expect(throws([&] { Z.readFromCSV("does_not_exist.csv"); }) && same(sm(Z), a) && throws([&] { vec v; v.readFromCSV("does_not_exist.csv"); }), "missing-file"); expect(throws([&] { A.saveAsCSV("no_such_dir/x.csv"); }), "unwritable-accepted"); }
	// accepted spellings
	{ rv::spit("ok.csv", "1, 2.5e3 ,-3\n+4,.5,6.\r\n7,8,9"); mat K; try { K.readFromCSV("ok.csv"); expect(K.getNRows() == 3 && K.getNCols() == 3 && K(0, 1) == 2500 && K(1, 0) == 4 && K(1, 1) == .5 && K(1, 2) == 6 && K(2, 2) == 9, "spelling"); } catch (const std::exception& e) { rv::viol(P, "spelling-rejected", e.what()); } }
	(void)trim6;
}

// ---------------------------------------------------------------- sampling (L04)
static void sampling(Rng& r) {
	P = "L04"; int n = r.chance(0.2) ? r.in(1, 3) : r.in(4, 60), d = r.in(1, 6); dv lo(d), hi(d); for (int j = 0; j < d; j++) { lo[j] = r.uni(-100, 100) * r.pick(std::vector<double>{1, 1, 1e-3, 1e4}); hi[j] = lo[j] + r.logu(1e-2, 1e4); }
	rv::distinct("sample " + std::to_string(n) + "x" + std::to_string(d)); vec L = mv(lo), H = mv(hi);
	auto inside = [&](const std::string& w, const rm& a) { for (auto& x : a) for (int j = 0; j < d; j++) { double s = 4e-16 * (fabs(lo[j]) + fabs(hi[j])); rv::count("sampled values"); if (!(x[j] >= lo[j] - s && x[j] <= hi[j] + s)) rv::viol(P, w + "-outside", rv::fmt(x[j]) + " not in [" + rv::fmt(lo[j]) + "," + rv::fmt(hi[j]) + "]"); }
		if (a.size() > 1) for (int j = 0; j < d; j++) { std::set<double> s; for (auto& x : a) s.insert(x[j]); if (s.size() < a.size() - 1) rv::viol(P, w + "-repeats", std::to_string(s.size()) + " values of " + std::to_string(a.size())); } 
		// coverage: 60 independent uniform draws miss an outer eighth with probability 2*0.875^60 = 6.6e-4; the 120 here with 2.2e-7
	};
	auto covers = [&](const std::string& w, std::function<rm()> gen) { dv mn(d, 1), mx(d, 0); rm all; while (all.size() < 200) { rm x = gen(); all.insert(all.end(), x.begin(), x.end()); } for (auto& x : all) for (int j = 0; j < d; j++) { double u = (x[j] - lo[j]) / (hi[j] - lo[j]); mn[j] = std::min(mn[j], u); mx[j] = std::max(mx[j], u); } for (int j = 0; j < d; j++) if (mn[j] > 0.15 || mx[j] < 0.85) rv::viol(P, w + "-does-not-cover", rv::fmt(mn[j]) + ".." + rv::fmt(mx[j]));
		if (d > 1) { bool all_same = true; for (auto& x : all) { double u0 = (x[0] - lo[0]) / (hi[0] - lo[0]), u1 = (x[1] - lo[1]) / (hi[1] - lo[1]); if (fabs(u0 - u1) > 1e-6) all_same = false; } if (all_same) rv::viol(P, w + "-dimensions-coupled", ""); } };
	std::vector<std::pair<std::string, std::function<rm()>>> gens = {
		{"mat-fillRandom", [&] { mat m(n, d); m.fillRandom(L, H); return sm(m); }}, {"mat-fillRandom-std", [&] { mat m(n, d); m.fillRandom(lo, hi); return sm(m); }},
		{"mat-fillRandomLHS", [&] { mat m(n, d); m.fillRandomLHS(L, H); return sm(m); }}, {"mat-fillRandomLHS-std", [&] { mat m(n, d); m.fillRandomLHS(lo, hi); return sm(m); }},
		{"vec-fillRandom", [&] { rm a; for (int i = 0; i < n; i++) { vec v(d); v.fillRandom(L, H); a.push_back(sv(v)); } return a; }}, {"vec-between", [&] { rm a; for (int i = 0; i < n; i++) a.push_back(sv(vec::generateRandomVectorBetween(L, H))); return a; }} };
	for (auto& g : gens) { rm a = g.second(); rv::count("samples " + g.first); if (a.size() != (size_t)n || a[0].size() != (size_t)d) { rv::viol(P, g.first + "-shape", ""); continue; } inside(g.first, a);
		if (g.first.find("LHS") != std::string::npos) for (int j = 0; j < d; j++) { std::vector<int> c(n, 0); bool edge = false; for (auto& x : a) { double u = (x[j] - lo[j]) / (hi[j] - lo[j]) * n; int s = (int)floor(u); if (fabs(u - round(u)) < 1e-9 * n) edge = true; if (s >= 0 && s < n) c[s]++; } if (!edge) for (int s = 0; s < n; s++) if (c[s] != 1) { rv::viol(P, g.first + "-stratum", "stratum " + std::to_string(s) + " of " + std::to_string(n) + " holds " + std::to_string(c[s])); break; } rv::count("strata checked", n); 
			if (n >= 20) { bool sorted = true; for (int i = 1; i < n; i++) sorted &= a[i][j] > a[i - 1][j]; if (sorted) rv::viol(P, g.first + "-not-shuffled", ""); } }
		if (rv::currentCase % 8 == 0) covers(g.first, g.second); }
	{ double a = r.uni(-5, 5), b = a + r.logu(1e-3, 1e3); mat m(n, d); m.fillRandom(a, b); for (auto& x : sm(m)) for (double y : x) expect(y >= a && y <= b + 1e-15 * (fabs(a) + fabs(b)), "mat-scalar-outside"); vec v(n); v.fillRandom(a, b); for (double y : sv(v)) expect(y >= a && y <= b, "vec-scalar-outside"); v.fillRandom(); for (double y : sv(v)) expect(y >= 0 && y <= 1, "vec-unit-outside"); m.fillRandom(); for (auto& x : sm(m)) for (double y : x) expect(y >= 0 && y <= 1, "mat-unit-outside");
		expect(throws([&] { m.fillRandom(b, a); }) && throws([&] { v.fillRandom(b, a); }), "scalar-reversed-accepted"); }
	{ dv h2 = hi; h2[r.in(0, d - 1)] = -1e9; mat m(n, d, 1.0); expect(throws([&] { m.fillRandom(L, mv(h2)); }) && throws([&] { m.fillRandom(lo, h2); }) && throws([&] { m.fillRandomLHS(L, mv(h2)); }) && throws([&] { m.fillRandomLHS(lo, h2); }), "reversed-accepted"); vec w(d + 1); expect(throws([&] { m.fillRandom(w, w); }) && throws([&] { m.fillRandomLHS(w, w); }) && throws([&] { vec v(d); v.fillRandom(w, w); }) && throws([&] { vec::generateRandomVectorBetween(w, L); }) && throws([&] { m.fillRandom(dv(d + 1), dv(d + 1, 1)); }) && throws([&] { m.fillRandomLHS(dv(d + 1), dv(d + 1, 1)); }), "size-accepted"); }
	{ mat m(n, d, 1.0); vec b1(d + 1, 9.0), b2(d, 9.0); dv c1(d + 1, 9.0), c2(d, 9.0); expect(throws([&] { m.fillRandom(L, b1); }) && throws([&] { m.fillRandom(vec(d + 1, -9.0), b2); }) && throws([&] { m.fillRandom(lo, c1); }) && throws([&] { m.fillRandom(dv(d + 1, -9.0), c2); }) && throws([&] { m.fillRandomLHS(L, b1); }) && throws([&] { m.fillRandomLHS(vec(d + 1, -9.0), b2); }) && throws([&] { m.fillRandomLHS(lo, c1); }) && throws([&] { m.fillRandomLHS(dv(d + 1, -9.0), c2); }), "wrong-size-accepted"); }
	{ vec v(n); v.fillRandom(); std::set<double> k; for (double y : sv(v)) { k.insert(y); expect(y >= 0 && y < 1, "unit-outside"); } mat m(d + 1, d + 1); m.generateRandomSymmetric(); std::set<double> u; for (auto& x : sm(m)) for (double y : x) { u.insert(y); expect(y >= 0 && y <= 1, "symmetric-outside"); } expect(m.isSymmetric(), "symmetric"); if ((int)k.size() != n || (int)u.size() != (d + 1) * (d + 2) / 2) rv::viol(P, "random-entries-repeated", std::to_string(k.size()) + " of " + std::to_string(n) + " and " + std::to_string(u.size())); }
}

int main(int argc, char** argv) {
	return rv::runCases(argc, argv, [](const rv::Args& a, int k, Rng& r) {
		try {
			if (a.mode == "L01") { P = "L01"; vectorOps(r); matrixSequence(r); matrixFunctions(r); }
			else if (a.mode == "L02") factor(r);
			else if (a.mode == "L03") csv(r);
			else if (a.mode == "L04") sampling(r);
			else exit(3);
		} catch (const std::exception& e) { rv::viol(P, "unexpected-exception", e.what()); }
		(void)k;
	});
}
