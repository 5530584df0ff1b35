// Long-double reference of ordinary/universal Kriging and the ridge-regularised linear trend.
#ifndef KREF_HPP
#define KREF_HPP
#include "rv.hpp"
namespace kref {
using rv::ld; using rv::dv;
typedef std::vector<ld> lv; typedef std::vector<lv> lm;

inline bool chol(lm& A) { int n = A.size(); for (int j = 0; j < n; j++) { ld s = A[j][j]; for (int k = 0; k < j; k++) s -= A[j][k] * A[j][k]; if (!(s > 0)) return false; A[j][j] = sqrtl(s); for (int i = j + 1; i < n; i++) { ld t = A[i][j]; for (int k = 0; k < j; k++) t -= A[i][k] * A[j][k]; A[i][j] = t / A[j][j]; } } return true; }
inline lv cholsolve(const lm& L, lv b) { int n = L.size(); for (int i = 0; i < n; i++) { for (int k = 0; k < i; k++) b[i] -= L[i][k] * b[k]; b[i] /= L[i][i]; } for (int i = n - 1; i >= 0; i--) { for (int k = i + 1; k < n; k++) b[i] -= L[k][i] * b[k]; b[i] /= L[i][i]; } return b; }

inline std::vector<dv> normalize(const std::vector<dv>& x, const dv& lb, const dv& ub) { auto r = x; size_t d = lb.size(); for (auto& p : r) for (size_t j = 0; j < d; j++) p[j] = (double)(((ld)p[j] - lb[j]) / ((ld)ub[j] - lb[j]) / (ld)d); return r; }

// weights [w0, w1..wd] of min |y - Xa w|^2 + ridge |w|^2
struct Trend {
	lv w; ld cond = 0;
	void fit(const std::vector<dv>& xn, const dv& y, ld ridge = 1e-8L) { int n = xn.size(), d = xn[0].size(); lm A(d + 1, lv(d + 1, 0)); lv b(d + 1, 0);
		for (int k = 0; k < n; k++) { lv a(d + 1, 1); for (int j = 0; j < d; j++) a[j + 1] = xn[k][j]; for (int i = 0; i <= d; i++) { b[i] += a[i] * y[k]; for (int j = 0; j <= d; j++) A[i][j] += a[i] * a[j]; } }
		ld nrm = 0; for (int i = 0; i <= d; i++) { A[i][i] += ridge; nrm += A[i][i]; }
		lm L = A; chol(L); w = cholsolve(L, b); ld inv = 0; for (int i = 0; i <= d; i++) { lv e(d + 1, 0); e[i] = 1; lv s = cholsolve(L, e); inv += fabsl(s[i]); } cond = nrm * inv; }
	ld at(const dv& x) const { ld s = w[0]; for (size_t j = 0; j < x.size(); j++) s += w[j + 1] * x[j]; return s; }
};

struct Krig {
	std::vector<dv> x; lv y; dv th, ga; bool universal = false; Trend trend; lm L; lv a, b1; ld beta = 0, s2 = 0, logdet = 0, cond = 0, ones = 0, yscale = 0; bool ok = false;
	ld corr(const dv& p, const dv& q) const { ld s = 0; for (size_t i = 0; i < p.size(); i++) s += (ld)th[i] * powl(fabsl((ld)p[i] - q[i]), ga[i]); return expl(-s); }
	// xn: normalised inputs; t: points and values the trend was fitted to (universal)
	void build(const std::vector<dv>& xn, const dv& yy, const dv& hyper, bool uni, const Trend* given = nullptr, bool withCond = true, ld eps = 1e-12L) {
		x = xn; int n = x.size(), d = x[0].size(); th.assign(hyper.begin(), hyper.begin() + d); ga.assign(hyper.begin() + d, hyper.end()); universal = uni; y.assign(yy.begin(), yy.end()); yscale = 0; for (auto v : y) yscale = std::max(yscale, fabsl(v));
		if (uni) { if (given) trend = *given; else trend.fit(xn, yy); for (int i = 0; i < n; i++) y[i] -= trend.at(x[i]); }
		lm R(n, lv(n)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { R[i][j] = R[j][i] = corr(x[i], x[j]); if (i == j) R[i][i] = 1 + eps; }
		L = R; ok = chol(L); if (!ok) return;
		logdet = 0; for (int i = 0; i < n; i++) logdet += 2 * logl(L[i][i]);
		b1 = cholsolve(L, lv(n, 1)); lv ry = cholsolve(L, y); ones = 0; ld s = 0; for (int i = 0; i < n; i++) { ones += b1[i]; s += ry[i]; } beta = s / ones;
		lv z(n); for (int i = 0; i < n; i++) z[i] = y[i] - beta; a = cholsolve(L, z); s2 = 0; for (int i = 0; i < n; i++) s2 += z[i] * a[i]; s2 /= n;
		if (withCond) { ld inv = 0, nr = 0; for (int i = 0; i < n; i++) { lv e(n, 0); e[i] = 1; lv c = cholsolve(L, e); ld q = 0, w = 0; for (int j = 0; j < n; j++) { q += fabsl(c[j]); w += fabsl(R[i][j]); } inv = std::max(inv, q); nr = std::max(nr, w); } cond = inv * nr; }
	}
	lv r(const dv& p) const { lv v(x.size()); for (size_t i = 0; i < x.size(); i++) v[i] = corr(p, x[i]); return v; }
	ld at(const dv& p) const { lv v = r(p); ld s = beta; for (size_t i = 0; i < x.size(); i++) s += v[i] * a[i]; if (universal) s += trend.at(p); return s; }
	ld var(const dv& p) const { lv v = r(p), c = cholsolve(L, v); ld q = 0, o = 0; for (size_t i = 0; i < x.size(); i++) { q += v[i] * c[i]; o += v[i] * b1[i]; } return s2 * (1 - q + (o - 1) * (o - 1) / ones); }
	ld likelihood() const { return s2 > 0 ? -(ld)x.size() / 2 * logl(s2) - logdet / 2 : -INFINITY; }
	// error that double precision may introduce: ~ cond * eps
	double tol() const { return 1e-10 + 4e-15 * (double)cond * x.size() + (universal ? 1e-14 * (double)trend.cond : 0); }
	// the scale of the numbers a prediction is summed up from
	double scale() const { ld m = yscale + 1e-300L; for (auto v : a) m = std::max(m, fabsl(v)); return (double)m; }
};
}
#endif
