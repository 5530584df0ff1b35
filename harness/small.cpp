// Bounds (B01), correlation functions (K07), designs and candidates (D01).
#include "rv.hpp"
#include "Bounds/INCLUDE/bounds.hpp"
#include "CorrelationFunctions/INCLUDE/exponential_correlation_function.hpp"
#include "CorrelationFunctions/INCLUDE/gaussian_correlation_function.hpp"
#include "Design/INCLUDE/design.hpp"
using namespace Rodop;
using rv::ld; using rv::dv; using rv::Rng;
static const char* P = "?";
static dv sv(const vec& v) { dv r(v.getSize()); for (unsigned i = 0; i < v.getSize(); i++) r[i] = v.get(i); return r; }
static vec mv(const dv& r) { vec v((unsigned)r.size()); for (unsigned i = 0; i < r.size(); i++) v.set(i, r[i]); return v; }
static void expect(bool ok, const std::string& what, const std::string& d = "") { rv::count("checks"); if (!ok) rv::viol(P, what, d); }
static bool nearly(double a, double b, double rel, double abs = 0) { rv::count("checks"); return rv::close(a, b, rel, abs); }
template <class F> static bool throws(F f) { rv::count("invalid operations"); try { f(); } catch (const std::exception&) { return true; } return false; }

// ---------------------------------------------------------------- bounds: a model of the last accepted pair
static void bounds(Rng& r) {
	P = "B01"; Bounds B; bool set = false; dv lo, hi; unsigned dim = 0; std::string trace;
	if (r.chance(0.5)) { dim = r.in(1, 8); B = Bounds(dim); }
	auto check = [&](const std::string& w) {
		if (B.areBoundsSet() != set) { rv::viol(P, "flag:" + w, trace); return; }
		if (B.getDimension() != dim) rv::viol(P, "dimension:" + w, trace);
		if (set) { expect(sv(B.getLowerBounds()) == lo && sv(B.getUpperBounds()) == hi, "values:" + w, trace + rv::fmt(lo) + rv::fmt(hi) + " got " + rv::fmt(sv(B.getLowerBounds())) + rv::fmt(sv(B.getUpperBounds())));
			expect(B.checkBounds() && B.checkIfBoundsAreValid(), "valid:" + w, trace);
			for (int k = 0; k < 3; k++) { dv x(dim); bool in = true; for (unsigned i = 0; i < dim; i++) { switch (r.in(0, 7)) { case 0: x[i] = lo[i]; break; case 1: x[i] = hi[i]; break; case 2: if (r.chance(0.3)) x[i] = std::nextafter(lo[i], -INFINITY); else x[i] = lo[i]; break; case 3: if (r.chance(0.3)) x[i] = std::nextafter(hi[i], INFINITY); else x[i] = hi[i]; break; default: x[i] = lo[i] + (hi[i] - lo[i]) * r.u(); if (x[i] < lo[i]) x[i] = lo[i]; if (x[i] > hi[i]) x[i] = hi[i]; } in &= x[i] >= lo[i] && x[i] <= hi[i]; }
				expect(B.isPointWithinBounds(mv(x)) == in, in ? "inside-refused" : "outside-accepted", rv::fmt(x)); rv::count(in ? "points inside" : "points outside");
				vec g = B.generateVectorWithinBounds(); expect(g.getSize() == dim && B.isPointWithinBounds(g), "generated-outside", rv::fmt(sv(g))); dv s = B.generateStdVectorWithinBounds(); expect(s.size() == dim && B.isPointWithinBounds(mv(s)), "generated-outside-std", rv::fmt(s)); if (dim) expect(sv(B.generateVectorWithinBounds()) != sv(g), "generated-constant", rv::fmt(sv(g))); }
			expect(throws([&] { B.isPointWithinBounds(vec(dim + 1)); }) && throws([&] { B.isPointWithinBounds(vec(dim - 1)); }), "wrong-size-point", trace);
		} else expect(throws([&] { B.generateVectorWithinBounds(); }) && throws([&] { B.generateStdVectorWithinBounds(); }), "generated-unset", trace);
	};
	check("start");
	for (int step = 0; step < 12; step++) {
		int d = r.in(1, 8); dv a(d), b(d); for (int i = 0; i < d; i++) { a[i] = r.uni(-100, 100); b[i] = a[i] + r.logu(1e-6, 1e4); }
		bool ok = true; std::string kind = "valid";
		switch (r.in(0, 9)) {
		case 0: { int i = r.in(0, d - 1); b[i] = a[i]; ok = false; kind = "equal"; break; }
		case 1: { int i = r.in(0, d - 1); std::swap(a[i], b[i]); ok = false; kind = "reversed"; break; }
		case 2: { b.push_back(1e9); ok = false; kind = "upper-longer"; break; }
		case 3: { a.push_back(-1e9); ok = false; kind = "lower-longer"; break; }
		case 4: { int i = r.in(0, d - 1); (r.chance(0.5) ? a : b)[i] = NAN; ok = false; kind = "nan"; break; }
		case 5: { a.clear(); b.clear(); ok = false; kind = "empty"; break; }
		default: break; }
		int how = r.in(0, 5); std::string w; bool threw = false; dv na = a, nb = b;
		if (how == 5 && kind != "empty" && kind != "upper-longer" && kind != "lower-longer") { w = "scalar"; double x = a[0], y = b[0]; if (kind == "equal") y = x; if (kind == "reversed") { x = 2; y = 1; } if (kind == "nan") x = NAN; bool e = kind == "valid" && dim > 0; try { B.setBounds(x, y); } catch (const std::exception&) { threw = true; } ok = e; na.assign(dim, x); nb.assign(dim, y); }
		else if (how <= 1) { w = "setBounds(vec)"; try { B.setBounds(mv(a), mv(b)); } catch (const std::exception&) { threw = true; } }
		else if (how == 2) { w = "setBounds(std)"; try { B.setBounds(a, b); } catch (const std::exception&) { threw = true; } }
		else if (how == 3) { w = "Bounds(vec)"; try { Bounds C(mv(a), mv(b)); B = C; } catch (const std::exception&) { threw = true; } }
		else if (how == 4) { w = "Bounds(std)"; try { Bounds C(a, b); B = C; } catch (const std::exception&) { threw = true; } }
		else { w = "reset"; B.reset(); set = false; dim = 0; trace += "reset "; check("reset"); continue; }
		trace += w + ":" + kind + "(" + std::to_string(d) + ") "; rv::count("attempts " + kind); rv::distinct(w + " " + kind + " d" + std::to_string(d) + (set ? " over" : ""));
		if (threw == ok) { rv::viol(P, (ok ? "valid-rejected:" : "invalid-accepted:") + w + ":" + kind, trace + rv::fmt(a) + rv::fmt(b)); return; }
		if (ok) { set = true; lo = na; hi = nb; dim = na.size(); }
		else if (dim != B.getDimension()) { dim = B.getDimension(); rv::viol(P, "dimension-after-rejection", trace); }
		check(w + ":" + kind);
	}
	rv::sample("{\"operations\": " + rv::jstr(trace) + "}");
}

// ---------------------------------------------------------------- correlation functions
static ld expcorr(const dv& a, const dv& b, const dv& t, const dv& g) { ld s = 0; for (size_t i = 0; i < a.size(); i++) s += (ld)t[i] * powl(fabsl((ld)a[i] - b[i]), g[i]); return expl(-s); }
static void correlation(Rng& r) {
	P = "K07"; int d = r.in(1, 6), n = r.in(1, 15); bool gauss = r.chance(0.4); dv t(d), g(d, 2.0); for (int i = 0; i < d; i++) { t[i] = r.chance(0.1) ? 0 : r.chance(0.2) ? r.uni(0, 20) : r.logu(1e-3, 100); if (!gauss) g[i] = r.chance(0.15) ? 2.0 : r.chance(0.1) ? 1.0 : r.uni(0.5, 2); }
	rv::distinct(std::string(gauss ? "gauss" : "exp") + " d" + std::to_string(d) + " n" + std::to_string(n)); rv::count(gauss ? "gauss" : "exp");
	mat X(n, d); std::vector<dv> x(n, dv(d)); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) X(i, j) = x[i][j] = (i && r.chance(0.05)) ? x[i - 1][j] : r.uni(0, r.chance(0.2) ? 3.0 : 1.0 / d);
	ExponentialCorrelationFunction E; GaussianCorrelationFunction G; CorrelationFunctionBase* C = gauss ? (CorrelationFunctionBase*)&G : (CorrelationFunctionBase*)&E;
	expect(throws([&] { C->computeCorrelationMatrix(); }) && throws([&] { C->computeCorrelationVector(mv(x[0])); }) && throws([&] { C->setInputSampleMatrix(mat()); }) && throws([&] { C->setDimension(0); }), "unset-accepted");
	expect(throws([&] { if (gauss) G.initialize(); else E.initialize(); }), "initialize-without-dimension");
	C->setInputSampleMatrix(X); expect(C->isInputSampleMatrixSet(), "flag");
	if (gauss) { G.initialize(); vec q = G.getHyperParameters(); bool ok = q.getSize() == (unsigned)d; for (double v : sv(q)) ok &= v >= 0 && std::isfinite(v); expect(ok, "initial-parameters"); } else { E.initialize(); expect(E.checkIfParametersAreSetProperly(), "initial-parameters"); }
	vec h(gauss ? d : 2 * d); for (int i = 0; i < d; i++) { h(i) = t[i]; if (!gauss) h(d + i) = g[i]; }
	expect(throws([&] { C->setHyperParameters(vec(h.getSize() + 1, 1.0)); }) && throws([&] { C->setHyperParameters(vec(h.getSize() - 1, 1.0)); }) && throws([&] { C->setHyperParameters(vec()); }), "wrong-size-accepted");
	C->setHyperParameters(h); expect(sv(gauss ? G.getHyperParameters() : E.getHyperParameters()) == sv(h), "hyperparameters");
	if (!gauss) {
		expect(E.checkIfParametersAreSetProperly(), "admissible-reported-invalid", rv::fmt(sv(h)));
		ExponentialCorrelationFunction F; F.setDimension(d); F.setHyperParameters(h); vec th = mv(t), ga = mv(g); int i = r.in(0, d - 1);
		switch (r.in(0, 2)) { case 0: th(i) = -r.logu(1e-6, 10); break; case 1: ga(i) = 2 + r.logu(1e-6, 10); break; default: ga(i) = -r.logu(1e-6, 10); }
		bool t1 = false; try { F.setTheta(th); F.setGamma(ga); } catch (const std::exception&) { t1 = true; } expect(t1 || !F.checkIfParametersAreSetProperly(), "inadmissible-reported-valid", rv::fmt(sv(th)) + rv::fmt(sv(ga))); rv::count("inadmissible"); { ExponentialCorrelationFunction Q; Q.setDimension(d); if (r.chance(0.5)) { Q.setTheta(mv(t)); if (r.chance(0.5)) { Q.setGamma(mv(g)); Q.setDimension(d + 1); } } else Q.setGamma(mv(g)); expect(!Q.checkIfParametersAreSetProperly(), "incomplete-reported-valid"); }
		expect(throws([&] { F.setTheta(vec(d + 1)); }) && throws([&] { F.setGamma(vec(d + 1)); }) && throws([&] { F.setTheta(vec()); }), "theta-size");
	}
	double eps = r.chance(0.5) ? 1e-12 : r.logu(1e-12, 0.5); if (eps != 1e-12) C->setEpsilon(eps); expect(throws([&] { C->setEpsilon(-1e-9); }) && throws([&] { C->setEpsilon(1.0); }), "epsilon-range"); if (r.chance(0.1)) { eps = 0; C->setEpsilon(0); rv::count("no regularisation"); }
	C->computeCorrelationMatrix(); mat R = C->getCorrelationMatrix(); expect(R.getNRows() == (unsigned)n && R.getNCols() == (unsigned)n, "shape");
	for (int i = 0; i < n; i++) {
		vec cv = C->computeCorrelationVector(mv(x[i])); expect(cv.getSize() == (unsigned)n, "vector-shape");
		for (int j = 0; j < n; j++) {
			ld w = expcorr(x[i], x[j], t, g); double tol = 1e-13 * (1 + -(double)logl(std::max(w, 1e-300L)));
			double c = C->computeCorrelation(mv(x[i]), mv(x[j])); if (!nearly(c, w, tol * 10, 1e-300)) rv::viol(P, "correlation", "got " + rv::fmt(c) + " expected " + rv::fmt((double)w) + " for " + rv::fmt(x[i]) + rv::fmt(x[j]) + " theta " + rv::fmt(t) + " gamma " + rv::fmt(g));
			if (!(c >= 0 && c <= 1) || c != C->computeCorrelation(mv(x[j]), mv(x[i])) || (i == j && c != 1)) rv::viol(P, "correlation-range-symmetry", rv::fmt(c));
			if (!nearly(R(i, j) - (i == j ? eps : 0), w, tol * 10, 3e-16)) rv::viol(P, "matrix", "entry " + std::to_string(i) + "," + std::to_string(j) + " got " + rv::fmt(R(i, j)) + " expected " + rv::fmt((double)w));
			if (R(i, j) != R(j, i)) rv::viol(P, "matrix-asymmetric", "");
			if (!nearly(cv(j), w, tol * 10, 1e-300)) rv::viol(P, "vector", "entry " + std::to_string(j));
			const double *a = x[i].data(), *b = x[j].data();
			if (gauss) { if (!nearly(vec::computeGaussianCorrelationNaive(a, b, t.data(), d), w, tol * 10, 1e-300) || !nearly(vec::computeGaussianCorrelation(mv(x[i]), mv(x[j]), mv(t), d), w, tol * 10, 1e-300)) rv::viol(P, "variant", ""); }
			else if (!nearly(vec::computeExponentialCorrelationNaive(a, b, t.data(), g.data(), d), w, tol * 10, 1e-300) || !nearly(vec::computeExponentialCorrelation(a, b, t.data(), g.data(), d), w, tol * 10, 1e-300)) rv::viol(P, "variant", "");
		}
	}
	mat R2 = gauss ? X.computeCorrelationMatrixGaussian(mv(t)) : X.computeCorrelationMatrixExponential(mv(t), mv(g)), R3 = gauss ? X.computeCorrelationMatrixGaussianNaive(mv(t)) : X.computeCorrelationMatrixExponentialNaive(mv(t), mv(g));
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!nearly(R2(i, j), R(i, j) - (i == j ? eps : 0), 1e-11, 1e-15) || !nearly(R3(i, j), R(i, j) - (i == j ? eps : 0), 1e-11, 1e-15)) rv::viol(P, "matrix-variant", "");
	expect(throws([&] { X.computeCorrelationMatrixGaussian(vec(d + 1)); }) && throws([&] { X.computeCorrelationMatrixExponential(vec(d + 1), vec(d + 1)); }) && throws([&] { X.computeCorrelationMatrixExponential(vec(d), vec(d + 1)); }), "matrix-size");
	// directional derivatives with respect to the second point, by long-double formula
	for (int k = 0; k < 3; k++) { dv a(d), b(d), u(d), w(d); for (int i = 0; i < d; i++) { a[i] = r.u(); b[i] = a[i] + (r.chance(0.5) ? 1 : -1) * r.uni(0.05, 1); u[i] = r.uni(-1, 1); w[i] = r.uni(-1, 1); }
		ld s = 0, sd = 0, sw = 0, sdd = 0, mag = 0; for (int i = 0; i < d; i++) { ld q = (ld)a[i] - b[i], aq = fabsl(q), dq = q >= 0 ? -(ld)u[i] : (ld)u[i]; s += t[i] * powl(aq, g[i]); sd += t[i] * g[i] * powl(aq, g[i] - 1.0L) * dq; mag += fabsl(t[i] * g[i] * powl(aq, g[i] - 1.0L) * dq); sw += -2 * t[i] * q * w[i]; sdd += 2 * t[i] * (ld)u[i] * w[i]; }
		ld want = -sd * expl(-s); double got = C->computeCorrelationDot(mv(a), mv(b), mv(u)); double tol = 1e-12 * (double)((1 + s) * mag * expl(-s)); if (!nearly(got, want, 1e-12, tol)) rv::viol(P, "derivative", "got " + rv::fmt(got) + " expected " + rv::fmt((double)want)); rv::count("derivatives");
		if (gauss) { ld w2 = expl(-s) * (sd * sw - sdd); double g2 = G.computeCorrelationDotDot(mv(a), mv(b), mv(u), mv(w)); double m2 = 0; for (int i = 0; i < d; i++) m2 += 2 * t[i] * fabs(u[i] * w[i]); if (!nearly(g2, w2, 1e-11, 1e-11 * (double)(expl(-s) * (1 + s) * (m2 + mag * (fabsl(sw) + 1))))) rv::viol(P, "second-derivative", rv::fmt(g2) + " expected " + rv::fmt((double)w2)); } }
	// a new sample matrix replaces the old one
	if (n > 1) { mat Y(n - 1, d); for (int i = 0; i < n - 1; i++) for (int j = 0; j < d; j++) Y(i, j) = x[i + 1][j]; C->setInputSampleMatrix(Y); C->computeCorrelationMatrix(); mat R4 = C->getCorrelationMatrix(); expect(R4.getNRows() == (unsigned)n - 1, "replaced-shape"); for (int i = 0; i < n - 1; i++) for (int j = 0; j < n - 1; j++) if (!nearly(R4(i, j), R(i + 1, j + 1), 1e-12, 1e-15)) rv::viol(P, "replaced", ""); vec cv = C->computeCorrelationVector(mv(x[0])); expect(cv.getSize() == (unsigned)n - 1, "replaced-vector"); if (cv.getSize() == (unsigned)n - 1) for (int j = 0; j < n - 1; j++) if (!nearly(cv(j), expcorr(x[0], x[j + 1], t, g), 1e-11, 1e-300)) rv::viol(P, "replaced-vector", ""); }
}

// ---------------------------------------------------------------- designs and candidates
static void design(Rng& r) {
	P = "D01"; int d = r.in(1, 8), m = r.in(0, 5); auto rv_ = [&](int n) { dv v(n); for (auto& x : v) x = r.uni(-10, 10); return v; };
	rv::distinct("design d" + std::to_string(d) + " m" + std::to_string(m)); dv x = rv_(d); Design D = r.chance(0.5) ? Design(mv(x)) : Design((int)d); D.setDimension(d); D.designParameters = mv(x); D.setNumberOfConstraints(m); D.ID = r.in(0, 12);
	double f = r.uni(-5, 5), fl = r.uni(-5, 5), tv = r.uni(-5, 5), tl = r.uni(-5, 5); dv g = rv_(d), gl = rv_(d), c = rv_(m), cl = rv_(m), ct = rv_(m), ctl = rv_(m);
	D.trueValue = f; D.trueValueLowFidelity = fl; D.gradient = mv(g); D.gradientLowFidelity = mv(gl); D.constraintTrueValues = mv(c); D.constraintTrueValuesLowFidelity = mv(cl); D.constraintTangent = mv(ct); D.constraintTangentLowFidelity = mv(ctl); D.tangentValue = tv; D.tangentValueLowFidelity = tl;
	D.generateRandomDifferentiationDirection(); dv dir = sv(D.tangentDirection); ld nn = 0; for (double q : dir) nn += (ld)q * q; expect(dir.size() == (size_t)d && fabsl(nn - 1) < 1e-12L, "direction-not-unit");
	std::vector<dv> CG(m), CGL(m), CD(m), CDL(m); for (int i = 0; i < m; i++) { CG[i] = rv_(d); CGL[i] = rv_(d); CD[i] = rv_(d); CDL[i] = rv_(d); D.constraintGradientsMatrix.setRow(mv(CG[i]), i); D.constraintGradientsMatrixLowFi.setRow(mv(CGL[i]), i); D.constraintDifferentiationDirectionsMatrix.setRow(mv(CD[i]), i); D.constraintDifferentiationDirectionsMatrixLowFi.setRow(mv(CDL[i]), i); }
	auto cat = [&](std::vector<dv> p) { dv o; for (auto& q : p) o.insert(o.end(), q.begin(), q.end()); return o; }; auto is = [&](const char* w, const vec& got, const dv& want) { expect(rv::sameBits(sv(got), want), w, "got " + rv::fmt(sv(got)) + " expected " + rv::fmt(want) + " ID " + std::to_string(D.ID)); rv::count("samples built"); };
	is("objective", D.constructSampleObjectiveFunction(), cat({x, {f}})); is("objective-lowfi", D.constructSampleObjectiveFunctionLowFi(), cat({x, {fl}})); is("objective-gradient", D.constructSampleObjectiveFunctionWithGradient(), cat({x, {f}, g})); is("objective-gradient-lowfi", D.constructSampleObjectiveFunctionWithGradientLowFi(), cat({x, {fl}, gl})); is("objective-zero-gradient", D.constructSampleObjectiveFunctionWithZeroGradient(), cat({x, {f}, dv(d, 0.0)})); is("objective-tangent", D.constructSampleObjectiveFunctionWithTangent(), cat({x, {f, tv}, dir})); is("objective-tangent-lowfi", D.constructSampleObjectiveFunctionWithTangentLowFi(), cat({x, {fl, tl}, dir}));
	for (int i = 0; i < m; i++) { is("constraint", D.constructSampleConstraint(i), cat({x, {c[i]}})); is("constraint-lowfi", D.constructSampleConstraintLowFi(i), cat({x, {cl[i]}})); is("constraint-gradient", D.constructSampleConstraintWithGradient(i), cat({x, {c[i]}, CG[i]})); is("constraint-gradient-lowfi", D.constructSampleConstraintWithGradientLowFi(i), cat({x, {cl[i]}, CGL[i]})); is("constraint-tangent", D.constructSampleConstraintWithTangent(i), cat({x, {c[i], ct[i]}, CD[i]})); is("constraint-tangent-lowfi", D.constructSampleConstraintWithTangentLowFi(i), cat({x, {cl[i], ctl[i]}, CDL[i]})); }
	int bad = m + r.in(0, 3); expect(throws([&] { D.constructSampleConstraint(bad); }) && throws([&] { D.constructSampleConstraintLowFi(bad); }) && throws([&] { D.constructSampleConstraintWithGradient(bad); }) && throws([&] { D.constructSampleConstraintWithGradientLowFi(bad); }) && throws([&] { D.constructSampleConstraintWithTangent(bad); }) && throws([&] { D.constructSampleConstraintWithTangentLowFi(bad); }), "bad-constraint-accepted");
	expect(throws([&] { Design E; E.setDimension(0); }) && throws([&] { Design E; E.setNumberOfConstraints(2); }), "zero-dimension-accepted");
	expect(!D.checkIfHasNan(), "nan-reported"); { Design N = D; int w = r.in(0, m ? 3 : 1); if (w == 3) { D.constraintGradients.assign(m, mv(rv_(d))); N = D; expect(!N.checkIfHasNan(), "nan-reported"); N.constraintGradients[r.in(0, m - 1)](r.in(0, d - 1)) = NAN; } else if (w == 0) N.trueValue = NAN; else if (w == 1) N.gradient(r.in(0, d - 1)) = NAN; else N.constraintTrueValues(r.in(0, m - 1)) = NAN; expect(N.checkIfHasNan() && !D.checkIfHasNan(), "nan-missed"); }
	{ D.isDesignFeasible = r.chance(0.5); std::string t = D.toString(), o = D.generateOutputString(); expect((t.find("YES") != std::string::npos) == D.isDesignFeasible, "shown-feasibility", t); size_t at = 0; auto shows = [&](double v) { std::string w = std::to_string(v); at = o.find(w, at); expect(at != std::string::npos, "shown-values", o + " without " + w); if (at != std::string::npos) at += w.size(); }; for (double v : x) shows(v); shows(f); for (double v : c) shows(v); D.print(); rv::count("printed designs"); }
	{ Design E = D; E.designParametersNormalized = mv(x); E.constraintEstimates = mv(c); E.estimatedValue = E.improvementValue = E.ExpectedImprovementvalue = 3; E.reset(); bool zero = E.trueValue == 0 && E.estimatedValue == 0 && E.trueValueLowFidelity == 0 && E.tangentValue == 0 && E.tangentValueLowFidelity == 0 && E.improvementValue == 0 && E.ExpectedImprovementvalue == 0; for (const vec& v : {E.designParameters, E.designParametersNormalized, E.gradient, E.gradientLowFidelity, E.tangentDirection, E.constraintTrueValues, E.constraintEstimates}) for (double q : sv(v)) zero &= q == 0; expect(zero && E.designParameters.getSize() == (unsigned)d && E.constraintTrueValues.getSize() == (unsigned)m, "reset-design"); rv::count("designs reset"); }
	D.saveDesignVectorAsCSVFile("dv.csv"); { rv::Csv q = rv::readCsv("dv.csv", false); expect(q.ok && q.rows.size() == 1 && q.rows[0].size() == (size_t)d, "csv-shape"); if (q.ok && q.rows.size() == 1 && q.rows[0].size() == (size_t)d) for (int i = 0; i < d; i++) if (!nearly(q.rows[0][i], x[i], 1e-9)) rv::viol(P, "csv-value", ""); }
	D.saveDesignVector("dv.dat"); { std::ifstream in("dv.dat"); dv q; double y; while (in >> y) q.push_back(y); expect(q.size() == (size_t)d, "dat-shape"); for (int i = 0; i < d && i < (int)q.size(); i++) if (!nearly(q[i], x[i], 1e-9)) rv::viol(P, "dat-value", ""); }
	expect(throws([&] { D.saveDesignVector(""); }) && throws([&] { D.saveDesignVectorAsCSVFile("no_dir/x.csv"); }) && throws([&] { D.saveDesignVector("no_dir/x"); }), "unwritable-accepted");
	// candidates
	dv lo(d), hi(d), s(d); for (int i = 0; i < d; i++) { lo[i] = r.uni(0, 0.4) / d; hi[i] = lo[i] + r.uni(0.05, 0.6) / d; switch (r.in(0, 4)) { case 0: s[i] = lo[i]; break; case 1: s[i] = hi[i]; break; default: s[i] = r.uni(lo[i], hi[i]); } }
	auto inb = [&](const char* w, const vec& v, const dv& l, const dv& h) { rv::count("candidates"); if (v.getSize() != (unsigned)d) { rv::viol(P, std::string(w) + "-shape", ""); return; } for (int i = 0; i < d; i++) if (!(v.get(i) >= l[i] && v.get(i) <= h[i])) rv::viol(P, std::string(w) + "-outside", rv::fmt(sv(v)) + " box " + rv::fmt(l) + rv::fmt(h)); };
	DesignForBayesianOptimization C(d, m); expect(C.dim == (unsigned)d && C.constraintValues.getSize() == (unsigned)m && C.dv.getSize() == (unsigned)d, "candidate-shape");
	double factor = r.pick(std::vector<double>{0.01, 0.01, 0.1, 1.0}); double mx = 0; std::set<double> seen;
	for (int k = 0; k < 6; k++) { C.generateRandomDesignVector(); inb("unit", C.dv, dv(d, 0), dv(d, 1.0 / d)); C.generateRandomDesignVector(mv(lo), mv(hi)); inb("random", C.dv, lo, hi); C.generateRandomDesignVectorAroundASample(mv(s), mv(lo), mv(hi), factor); inb("around", C.dv, lo, hi); for (int i = 0; i < d; i++) { mx = std::max(mx, fabs(C.dv(i) - s[i])); if (fabs(C.dv(i) - s[i]) > factor / d * (1 + 1e-9) + 1e-17) rv::viol(P, "around-too-far", rv::fmt(fabs(C.dv(i) - s[i]) * d)); } seen.insert(C.dv(0)); }
	expect(seen.size() > 1 && mx > 0, "around-constant"); expect(throws([&] { C.generateRandomDesignVectorAroundASample(vec(d + 1), mv(lo), mv(hi)); }), "around-size");
	{ DesignForBayesianOptimization U(mv(s), m); dv gr = rv_(d); double st = r.logu(1e-4, 10); U.gradientUpdateDesignVector(mv(gr), mv(lo), mv(hi), st); inb("gradient", U.dv, lo, hi); for (int i = 0; i < d; i++) { double w = std::min(hi[i], std::max(lo[i], s[i] + gr[i] * st)); if (!nearly(U.dv(i), w, 1e-13, 1e-16)) rv::viol(P, "gradient-step", rv::fmt(U.dv(i)) + " expected " + rv::fmt(w)); } rv::count("gradient steps"); }
	{ DesignForBayesianOptimization U(d, m); U.dv = mv(s); U.valueAcquisitionFunction = 0.7; U.constraintFeasibilityProbabilities = vec(m); ld w = 0.7L; for (int i = 0; i < m; i++) { double p = r.u(); U.constraintFeasibilityProbabilities(i) = p; w *= p; } U.updateAcqusitionFunctionAccordingToConstraints(); if (!nearly(U.valueAcquisitionFunction, w, 1e-13)) rv::viol(P, "acquisition-product", ""); U.objectiveFunctionValue = r.uni(-3, 3); U.sigma = r.logu(1e-3, 10); double v = r.uni(-5, 5); double p = 0.5 * erfc(-(v - U.objectiveFunctionValue) / U.sigma / sqrt(2.0)); double a = U.calculateProbalityThatTheEstimateIsLessThanAValue(v), b = U.calculateProbalityThatTheEstimateIsGreaterThanAValue(v); if (!nearly(a, p, 1e-9, 1e-12) || !nearly(b, 1 - p, 1e-9, 1e-12)) rv::viol(P, "estimate-probability", rv::fmt(a) + " " + rv::fmt(b) + " expected " + rv::fmt(p)); U.print(); expect(U.toString().size() > 10, "printable"); double xx = r.uni(-4, 4), mm = r.uni(-2, 2), ss = r.logu(1e-2, 10); expect(nearly(U.pdf(xx, mm, ss), std::exp(-0.5 * (xx - mm) / ss * (xx - mm) / ss) / ss / sqrt(2 * M_PI), 1e-9, 1e-300) && nearly(U.cdf(xx, mm, ss), 0.5 * erfc(-(xx - mm) / ss / sqrt(2.0)), 1e-9, 1e-15) && U.cdf(mm + ss, mm, 0) == 1 && U.cdf(mm - ss, mm, 0) == 0, "normal-distribution"); U.constraintValues.fill(2); U.constraintSigmas.fill(2); U.reset(); bool zero = U.valueAcquisitionFunction == 0 && U.sigma == 0 && U.objectiveFunctionValue == 0; for (const vec& q : {U.dv, U.constraintValues, U.constraintSigmas, U.constraintFeasibilityProbabilities}) for (double e : sv(q)) zero &= e == 0; expect(zero, "reset"); DesignForBayesianOptimization V((int)d), W(mv(s)), Z; expect(V.dim == (unsigned)d && W.dim == (unsigned)d && sv(W.dv) == s && Z.dim == 0 && V.valueAcquisitionFunction == 0 && W.valueAcquisitionFunction == 0 && Z.valueAcquisitionFunction == 0 && V.sigma == 0 && W.sigma == 0 && Z.sigma == 0 && V.objectiveFunctionValue == 0 && W.objectiveFunctionValue == 0 && Z.objectiveFunctionValue == 0 && C.valueAcquisitionFunction == 0 && C.sigma == 0, "fresh-candidate"); }
	{ dv l(d), h(d), y(d); for (int i = 0; i < d; i++) { l[i] = r.uni(-100, 100); h[i] = l[i] + r.logu(1e-2, 1e4); y[i] = r.chance(0.1) ? h[i] : r.chance(0.1) ? l[i] : l[i] + (h[i] - l[i]) * r.u(); } vec N = mv(y).normalizeVector(mv(l), mv(h)), Bk = N.denormalizeVector(mv(l), mv(h)); for (int i = 0; i < d; i++) { double sc = 1e-15 * (1 + (fabs(l[i]) + fabs(h[i])) / (h[i] - l[i])); if (!(N(i) >= -sc && N(i) <= 1.0 / d + sc)) rv::viol(P, "normalised-outside", rv::fmt(N(i))); if (!nearly(Bk(i), y[i], 1e-13, 8 * sc * (h[i] - l[i]))) rv::viol(P, "normalise-round-trip", rv::fmt(Bk(i)) + " for " + rv::fmt(y[i])); rv::count("round trips"); } Design R(vec((unsigned)d, 1e7)); R.generateRandomDesignVector(mv(l), mv(h)); inb("design", R.designParameters, l, h); dv q1 = sv(R.designParameters); R.generateRandomDesignVector(mv(l), mv(h)); expect(sv(R.designParameters) != q1, "design-constant"); R.designParameters.fill(1e7); R.generateRandomDesignVector(-1.0, 2.0); inb("design-scalar", R.designParameters, dv(d, -1), dv(d, 2)); R.generateRandomDifferentiationDirection(); q1 = sv(R.tangentDirection); R.generateRandomDifferentiationDirection(); expect(d == 1 || q1 != sv(R.tangentDirection), "direction-constant"); }
}

int main(int argc, char** argv) {
	return rv::runCases(argc, argv, [](const rv::Args& a, int, Rng& r) {
		try { if (a.mode == "B01") bounds(r); else if (a.mode == "K07") correlation(r); else if (a.mode == "D01") design(r); else exit(3); }
		catch (const std::exception& e) { rv::viol(P, "unexpected-exception", e.what()); }
	});
}
