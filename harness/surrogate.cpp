// Surrogate data (K06), linear model (K05), Kriging (K01-K04), reports (K08).
#include "rv.hpp"
#include "kref.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/linear_regression.hpp"
#include "SurrogateModels/INCLUDE/surrogate_model_tester.hpp"
#include <dlfcn.h>
#include <atomic>
#include <mutex>
#include <memory>
using namespace Rodop;
using rv::ld; using rv::dv; using rv::Rng; using kref::Krig; using kref::Trend;
typedef std::vector<dv> rows_t;
static const char* P = "?";
static dv sv(const vec& v) { dv r(v.getSize()); for (unsigned i = 0; i < v.getSize(); i++) r[i] = v.get(i); return r; }
static vec mv(const dv& r) { vec v((unsigned)r.size()); for (unsigned i = 0; i < r.size(); i++) v.set(i, r[i]); return v; }
static rows_t sm(const mat& m) { rows_t r(m.getNRows(), dv(m.getNCols())); for (unsigned i = 0; i < m.getNRows(); i++) for (unsigned j = 0; j < m.getNCols(); j++) r[i][j] = m(i, j); return r; }
static mat mm(const rows_t& r) { mat m(r.size(), r[0].size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[0].size(); j++) m(i, j) = r[i][j]; return m; }
static void expect(bool ok, const std::string& what, const std::string& d = "") { rv::count("checks"); if (!ok) rv::viol(P, what, d); }
template <class F> static bool throws(F f) { rv::count("invalid operations"); try { f(); } catch (const std::exception&) { return true; } return false; }
static std::string S(double x) { return rv::fmt(x); }

// number of factorizations done by the code under test
static std::atomic<long> factorizations{0};
// likelihood of every factorised correlation matrix (monitor of K03; off in M02, whose schedules it would synchronise)
namespace seen { static bool on = false; static dv y; static double best; static long n; static std::mutex m;
	static void add(int N, bool lower, const double* a, int lda) { if (N != (int)y.size()) return; auto L = [&](int i, int j) { return lower ? a[i + (size_t)j * lda] : a[j + (size_t)i * lda]; }; double lo = 1e300, hi = 0, ld = 0; for (int i = 0; i < N; i++) { double v = L(i, i); lo = std::min(lo, v); hi = std::max(hi, v); ld += 2 * std::log(v); } if (!(lo > 0) || hi / lo > 1e4) return;
		dv u(N, 1), z = y; for (int i = 0; i < N; i++) { for (int k = 0; k < i; k++) { u[i] -= L(i, k) * u[k]; z[i] -= L(i, k) * z[k]; } u[i] /= L(i, i); z[i] /= L(i, i); } double uu = 0, uz = 0; for (int i = 0; i < N; i++) { uu += u[i] * u[i]; uz += u[i] * z[i]; } double s2 = 0; for (int i = 0; i < N; i++) { double t = z[i] - uz / uu * u[i]; s2 += t * t; } s2 /= N; if (!(s2 > 0)) return; double v = -0.5 * N * std::log(s2) - 0.5 * ld; std::lock_guard<std::mutex> g(m); n++; best = std::max(best, v); } }
static bool bySizeOn = false; static std::map<int, long> bySize; // K08, one thread
static thread_local int depth = 0; // LAPACKE_dpotrf may call dpotrf_
extern "C" int LAPACKE_dpotrf(int l, char u, int n, double* a, int lda) { typedef int (*F)(int, char, int, double*, int); static F f = (F)dlsym(RTLD_NEXT, "LAPACKE_dpotrf"); depth++; int r = f(l, u, n, a, lda); depth--; factorizations.fetch_add(1, std::memory_order_relaxed); if (bySizeOn) bySize[n]++; if (seen::on && r == 0) seen::add(n, (u == 'L') != (l == 101), a, lda); return r; }
extern "C" void dpotrf_(const char* u, const int* n, double* a, const int* lda, int* info) { typedef void (*F)(const char*, const int*, double*, const int*, int*); static F f = (F)dlsym(RTLD_NEXT, "dpotrf_"); f(u, n, a, lda, info); if (depth) return; factorizations.fetch_add(1, std::memory_order_relaxed); if (bySizeOn) bySize[*n]++; if (seen::on && *info == 0) seen::add(*n, *u == 'L', a, *lda); }

static void writeRows(const std::string& f, const rows_t& r) { std::ofstream o(f); o << std::setprecision(17); for (auto& x : r) { for (size_t i = 0; i < x.size(); i++) o << (i ? "," : "") << x[i]; o << "\n"; } }
static rows_t readRows(const std::string& f) { rv::Csv c = rv::readCsv(f, false); if (!c.ok) throw std::logic_error("harness: " + c.error); return c.rows; }
struct Box { dv lb, ub; Bounds bounds() const { return Bounds(mv(lb), mv(ub)); } };
static Box box(Rng& r, int d) { Box b; for (int i = 0; i < d; i++) { double w = r.chance(0.5) ? 1 : r.logu(1e-2, 1e3); double c = r.chance(0.3) ? 0 : r.uni(-100, 100); b.lb.push_back(c); b.ub.push_back(c + w); } return b; }
struct Func { int kind; dv c; double scale, off; double operator()(const dv& u) const { double s = 0; int d = u.size(); for (int i = 0; i < d; i++) { double t = u[i]; switch (kind) { case 0: s += c[i] * t; break; case 1: s += c[i] * (t - 0.3) * (t - 0.3); break; case 2: s += std::sin(6 * t + c[i]); break; default: s += c[i] * t + std::cos(3 * t * c[i]) + (i ? t * u[i - 1] : 0); } } return off + scale * s; } };
static Func func(Rng& r, int d) { Func f; f.kind = r.in(0, 3); for (int i = 0; i < d; i++) f.c.push_back(r.uni(-2, 2)); f.scale = r.chance(0.5) ? 1 : r.logu(1e-3, 1e4); f.off = r.chance(0.5) ? 0 : r.uni(-1000, 1000) * f.scale; return f; }
static dv unit(Rng& r, int d) { dv u(d); for (auto& x : u) x = r.u(); return u; }
static dv place(const Box& b, const dv& u) { dv x(u.size()); for (size_t i = 0; i < u.size(); i++) x[i] = b.lb[i] + u[i] * (b.ub[i] - b.lb[i]); return x; }
// stratified sample, so that points keep some distance
static rows_t sample(Rng& r, const Box& b, const Func& f, int n) { int d = b.lb.size(); std::vector<std::vector<int>> p(d, std::vector<int>(n)); for (auto& q : p) { for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[r.in(0, i)]); }
	rows_t out; for (int i = 0; i < n; i++) { dv u(d); for (int j = 0; j < d; j++) u[j] = (p[j][i] + r.uni(0.1, 0.9)) / n; dv x = place(b, u); x.push_back(f(u)); out.push_back(x); } return out; }
static void split(const rows_t& rows, int d, rows_t& x, dv& y) { x.clear(); y.clear(); for (auto& q : rows) { x.push_back(dv(q.begin(), q.begin() + d)); y.push_back(q[d]); } }
static dv hyper(Rng& r, int d, bool inBox = false) { dv h(2 * d); for (int i = 0; i < d; i++) { h[i] = inBox ? r.uni(0, 20) : r.chance(0.3) ? r.uni(0, 20) : r.logu(0.5, 300) * d; h[d + i] = inBox ? r.uni(1, 2) : r.chance(0.2) ? 2.0 : r.chance(0.2) ? 1.0 : r.uni(1, 2); } return h; }
static Krig reference(const rows_t& rows, const Box& b, const dv& h, bool uni) { int d = b.lb.size(); rows_t x; dv y; split(rows, d, x, y); Krig k; k.build(kref::normalize(x, b.lb, b.ub), y, h, uni); return k; }

static std::unique_ptr<KrigingModel> makeModel(const std::string& file, const Box& b, bool uni, double ratio = -1, const std::string& name = "model") {
	std::unique_ptr<KrigingModel> m(new KrigingModel); m->setName(name); m->setDimension(b.lb.size()); m->setNameOfInputFile(file); if (uni) m->setLinearRegressionOn(); m->setBoxConstraints(b.bounds()); if (ratio >= 0) m->setRatioValidationSamples(ratio); m->readData(); m->normalizeData(); m->initializeSurrogateModel(); return m; }
static dv query(Rng& r, const Krig& k) { int d = k.th.size(); dv q(d); switch (r.in(0, 5)) { case 0: return k.x[r.in(0, (int)k.x.size() - 1)]; case 1: q = k.x[r.in(0, (int)k.x.size() - 1)]; for (auto& v : q) v += r.uni(-1, 1) * r.logu(1e-12, 1e-3); return q; case 2: for (auto& v : q) v = r.uni(-1.0, 2.0) / d; return q; default: for (auto& v : q) v = r.u() / d; return q; } }
static bool isTraining(const Krig& k, const dv& q, size_t& at) { for (size_t i = 0; i < k.x.size(); i++) if (k.x[i] == q) { at = i; return true; } return false; }

// compares a model with the reference at random points; returns false if the reference is too ill conditioned to decide
static bool compare(Rng& r, const KrigingModel& m, const Krig& k, const std::string& ctx, int points, bool variance) {
	if (!k.ok || k.tol() > 1e-3) { rv::count("ill-conditioned"); return false; }
	double tol = k.tol() * 20;
	for (int p = 0; p < points; p++) { dv q = query(r, k); vec x = mv(q); double f = m.interpolate(x); ld e = k.at(q); rv::count("predictions");
		double sc = std::max((double)k.yscale, 1e-300); expect(std::fabs((double)(f - e)) <= tol * sc * 10, "prediction:" + ctx, "got " + S(f) + " expected " + S((double)e) + " at " + rv::fmt(q) + " tolerance " + S(tol * sc * 10));
		expect(m.interpolate(x) == f, "repeated-query:" + ctx, S(f));
		if (variance) { double f2 = 0, v = -1; m.interpolateWithVariance(x, &f2, &v); expect(f2 == f, "prediction-with-variance:" + ctx, S(f2) + " vs " + S(f)); expect(v >= 0 && std::isfinite(v), "variance-invalid:" + ctx, S(v)); ld ev = k.var(q); double dz = (double)k.yscale * (1e-15 * k.x.size() + (k.universal ? 1e-15 * (double)k.trend.cond : 0)); double ds = 4 * dz * std::sqrt((double)(k.s2 * k.cond)) + 4 * (double)k.cond * dz * dz; double vt = ((double)k.s2 * (tol * 100 + 5e-9) + ds) * (1 + (double)(k.s2 > 0 ? fabsl(ev) / k.s2 : 0)) + 1e-300; double s2t = tol * 100 * (double)fabsl(ev) ; rv::count("variances");
			expect(std::fabs((double)(v - std::max(ev, (ld)0))) <= vt + s2t, "variance:" + ctx, "got " + S(v) + " expected " + S((double)ev) + " at " + rv::fmt(q) + " process variance " + S((double)k.s2));
			size_t at; if (isTraining(k, q, at)) { rv::count("training points"); expect(v <= (double)k.s2 * (tol * 100 + 5e-9) + ds * (tol * 100 + 5e-9) + 1e-300, "variance-at-sample:" + ctx, S(v)); } } 
		size_t at; if (isTraining(k, q, at) && k.cond < 1e8) { ld yy = k.y[at] + (k.universal ? k.trend.at(q) : 0); expect(std::fabs((double)(f - yy)) <= sc * (tol * 10 + 1e-11 * (double)k.cond), "interpolates-sample:" + ctx, S(f) + " vs " + S((double)yy)); rv::count("reproduced samples"); }
	}
	return true;
}

// ---------------------------------------------------------------- K01
static void k01(Rng& r) {
	P = "K01"; int d = r.in(1, 5), n = r.in(2, 35); bool uni = r.chance(0.4); Box b = box(r, d); Func f = func(r, d); rows_t rows = sample(r, b, f, n); writeRows("t.csv", rows);
	auto m = makeModel("t.csv", b, uni); rv::distinct((uni ? "universal d" : "ordinary d") + std::to_string(d) + " n" + std::to_string(n)); rv::count(uni ? "universal" : "ordinary");
	// untouched initial hyperparameters first
	compare(r, *m, reference(rows, b, sv(m->getHyperParameters()), uni), "initial", 2, true);
	for (int k = 0; k < 2; k++) { dv h = hyper(r, d); m->setHyperParameters(mv(h)); m->updateAuxilliaryFields(); expect(sv(m->getHyperParameters()) == h, "hyperparameters"); Krig ref = reference(rows, b, h, uni); if (compare(r, *m, ref, uni ? "universal" : "ordinary", 8, true)) rv::count("well-conditioned models");
		if (k == 0) rv::sample("{\"samples\": " + std::to_string(n) + ", \"dimension\": " + std::to_string(d) + ", \"universal\": " + (uni ? "true" : "false") + ", \"condition\": " + S((double)ref.cond) + ", \"hyperparameters\": " + rv::fmt(h) + "}");
		rows_t q; for (int i = 0; i < 4; i++) q.push_back(query(r, ref)); vec all = m->interpolateVector(mm(q)); expect(all.getSize() == 4, "interpolateVector-size"); for (int i = 0; i < 4; i++) expect(all.get(i) == m->interpolate(mv(q[i])), "interpolateVector"); }
	expect(throws([&] { m->setHyperParameters(vec(2 * d + 1, 1.0)); }) && throws([&] { m->setHyperParameters(vec()); }), "hyperparameter-size");
	expect(throws([&] { m->interpolateUsingDerivatives(vec(d)); }), "derivatives-accepted");
}

// ---------------------------------------------------------------- K02
static void k02(Rng& r) {
	P = "K02"; int d = r.in(1, 4), n = r.in(3, 14); bool uni = r.chance(0.4); Box b = box(r, d); Func f = func(r, d); writeRows("t.csv", sample(r, b, f, n));
	auto m = makeModel("t.csv", b, uni); std::string trace = uni ? "universal: " : "ordinary: "; m->setHyperParameters(mv(hyper(r, d))); m->updateAuxilliaryFields();
	int steps = r.in(4, 9); int trained = 0;
	for (int s = 0; s < steps; s++) {
		rows_t before = readRows("t.csv"); std::string bytes = rv::slurp("t.csv"); dv h = sv(m->getHyperParameters()); dv q = unit(r, d); for (auto& v : q) v /= d; std::string op;
		switch (r.in(0, 7)) {
		case 0: case 1: { op = "add"; dv u = unit(r, d); dv x = place(b, u); x.push_back(f(u)); bool near = false; for (auto& row : before) { bool all = true; for (int i = 0; i <= d; i++) all &= std::fabs(row[i] - x[i]) <= 1.5e-4; near |= all; } if (near) break; m->addNewSampleToData(mv(x));
			rows_t after = readRows("t.csv"); bool ok = after.size() == before.size() + 1 && rv::slurp("t.csv").compare(0, bytes.size(), bytes) == 0; if (ok) for (int i = 0; i <= d; i++) ok &= std::fabs(after.back()[i] - x[i]) <= 1e-11 + 1e-15 * std::fabs(x[i]); expect(ok && after.back().size() == (size_t)d + 1, "added-sample", trace + rv::fmt(x)); rv::count("samples added"); break; }
		case 2: { op = "duplicate"; dv x = before[r.in(0, (int)before.size() - 1)]; for (auto& v : x) v += r.uni(-1, 1) * (r.chance(0.5) ? 0.9e-4 : 1e-9); double f0 = m->interpolate(mv(q)); m->addNewSampleToData(mv(x)); expect(rv::slurp("t.csv") == bytes && m->interpolate(mv(q)) == f0 && m->getData().getNumberOfSamples() == before.size(), "duplicate-changed", trace + rv::fmt(x)); rv::count("duplicates"); break; }
		case 3: { op = "nearly-duplicate"; if (f.scale > 100) break; dv x = before[r.in(0, (int)before.size() - 1)]; x[r.in(0, d)] += (r.chance(0.5) ? 1 : -1) * r.uni(1.2e-4, 2e-3); bool near = false; for (auto& row : before) { bool all = true; for (int i = 0; i <= d; i++) all &= std::fabs(row[i] - x[i]) <= 1.1e-4; near |= all; } if (near) break; m->addNewSampleToData(mv(x)); expect(readRows("t.csv").size() == before.size() + 1, "distinct-sample-dropped", trace + rv::fmt(x)); rv::count("near duplicates"); break; }
		case 4: { op = "set"; m->setHyperParameters(mv(hyper(r, d))); if (r.chance(0.5)) m->updateAuxilliaryFields(); break; }
		case 5: { op = "reread"; rows_t more = before; int k = r.in(0, 2); for (int i = 0; i < k; i++) { dv u = unit(r, d); dv x = place(b, u); x.push_back(f(u)); more.push_back(x); } if (more.size() > 5 && r.chance(0.3)) more.erase(more.begin() + r.in(0, (int)more.size() - 1)); writeRows("t.csv", more); m->updateModelWithNewData(); rv::count("rereads"); break; }
		case 6: { if (trained >= 1 || d > 2 || before.size() > 14) continue; op = "train"; trained++; m->setNumberOfThreads(r.in(1, 3)); m->setNumberOfTrainingIterations(200); m->train(); rv::count("trainings"); break; }
		default: { op = "copy"; KrigingModel c = *m; dv u = unit(r, d); dv x = place(b, u); double f0 = m->interpolate(mv(q)); c.setHyperParameters(mv(hyper(r, d))); c.updateAuxilliaryFields(); expect(m->interpolate(mv(q)) == f0, "copy-not-independent", trace); break; }
		}
		trace += op + " "; rv::distinct(std::string(uni ? "universal " : "ordinary ") + op + " after " + std::to_string(s));
		rows_t now = readRows("t.csv"); expect(m->getData().getNumberOfSamples() == now.size(), "sample-count:" + op, trace + std::to_string(now.size()));
		if (op != "train" && op != "set") expect(sv(m->getHyperParameters()) == h, "hyperparameters-changed:" + op, trace);
		if (compare(r, *m, reference(now, b, sv(m->getHyperParameters()), uni), op, 4, true)) rv::count("compared with model from scratch");
	}
	rv::sample("{\"operations\": " + rv::jstr(trace) + "}");
	dv bad(d, 1.0); std::string bytes = rv::slurp("t.csv"); expect(throws([&] { m->addNewSampleToData(mv(bad)); }) && rv::slurp("t.csv") == bytes, "wrong-size-sample");
}

// ---------------------------------------------------------------- K03
static double valError(const rows_t& xt, const dv& yt, const rows_t& xv, const dv& yv, const dv& h, const Trend* t) { Krig k; k.build(xt, yt, h, t != nullptr, t, false); if (!k.ok) return INFINITY; ld s = 0; for (size_t i = 0; i < xv.size(); i++) s += fabsl(k.at(xv[i]) - yv[i]); return (double)(s / xv.size()); }
static bool manyThreads = false; // M02
static void k03(Rng& r) {
	P = manyThreads ? "M02" : "K03"; int d = r.in(1, 2), n = r.in(5, 16); bool uni = r.chance(0.4), val = r.chance(0.4); int threads = manyThreads ? r.in(2, 6) : r.pick(std::vector<int>{1, 1, 2, 3, 4}); Box b = box(r, d); Func f = func(r, d); if (r.chance(0.08)) { f.kind = 0; f.scale = 0; rv::count("constant values"); } rows_t rows = sample(r, b, f, n); writeRows("t.csv", rows);
	double ratio = val ? (r.chance(0.1) ? 0.0 : r.chance(0.1) ? 0.5 / n : r.uni(0.15, 0.6)) : -1; auto m = makeModel("t.csv", b, uni, ratio); int iters = r.pick(std::vector<int>{1, 150, 200 * d, 600 * d}); if (!manyThreads && r.chance(0.04)) iters = 12000; m->setNumberOfTrainingIterations(iters); m->setNumberOfThreads(threads);
	std::string ctx = std::string(uni ? "universal" : "ordinary") + (val ? "-validation" : "") + (threads > 1 ? "-threads" : ""); rv::distinct(ctx + " d" + std::to_string(d) + " n" + std::to_string(n / 4) + " it" + std::to_string(iters)); rv::count(val ? "validation trainings" : "likelihood trainings"); rv::count("threads " + std::to_string(threads));
	SurrogateModelData D = m->getData(); rows_t xt = sm(D.getInputMatrix()), xv; dv yt, yv; int nv = D.getNumberOfSamplesValidation(); Trend tr; rows_t allx; dv ally; split(rows, d, allx, ally); tr.fit(kref::normalize(allx, b.lb, b.ub), ally);
	if (nv) { xv = sm(D.getInputMatrixValidation()); yv = sv(D.getOutputVectorValidation()); }
	yt = sv(D.getOutputVector()); if (uni) for (size_t i = 0; i < yt.size(); i++) yt[i] += (double)tr.at(xt[i]);
	if (nv && !manyThreads) { auto q = makeModel("t.csv", b, uni, ratio); dv hh = hyper(r, d, true); q->setHyperParameters(mv(hh)); q->updateAuxilliaryFields(); SurrogateModelData E = q->getData(); mat V = E.getInputMatrixValidation(); vec yv2 = E.getOutputVectorValidation(); ld a = 0, s2 = 0; unsigned nn = E.getNumberOfSamplesValidation(); for (unsigned i = 0; i < nn; i++) { double e = q->interpolate(V.getRow(i)) - yv2(i); a += fabsl((ld)e); s2 += (ld)e * e; } double got = q->calculateValidationError(), mae = (double)(a / nn), mse = (double)(s2 / nn); expect(rv::close(got, mae, 1e-6, 1e-300) || rv::close(got, mse, 1e-6, 1e-300) || rv::close(got, std::sqrt(mse), 1e-6, 1e-300), "validation-error:" + ctx, S(got) + " mean absolute " + S(mae) + " mean squared " + S(mse)); rv::count("validation errors"); }
	double spread = 0; for (double v : ally) spread = std::max(spread, std::fabs(v - ally[0]));
	dv ys = yt; if (uni) for (size_t i = 0; i < ys.size(); i++) ys[i] -= (double)tr.at(xt[i]); seen::y = ys; seen::best = -1e300; seen::n = 0; seen::on = !nv && !manyThreads; long c0 = factorizations; m->train(); seen::on = false; long c1 = factorizations - c0; dv h = sv(m->getHyperParameters());
	auto inBox = [&](const dv& q) { for (int i = 0; i < d; i++) if (!(q[i] >= 0 && q[i] <= 20 && q[d + i] >= 1 && q[d + i] <= 2)) return false; return q.size() == 2u * d; };
	expect(inBox(h), "hyperparameters-outside:" + ctx, rv::fmt(h)); expect(m->ifModelTrainingIsDone, "flag");
	expect(m->getData().getNumberOfSamples() == (unsigned)n || (val && nv == 0), "samples-after-training:" + ctx, std::to_string(m->getData().getNumberOfSamples()));
	if (compare(r, *m, reference(rows, b, h, uni), "trained-" + ctx, 6, true)) rv::count("trained models compared");
	// quality: at most a tenth of random points of the box is better
	if (spread > 0) { int better = 0, N = 40; double own = 0; auto value = [&](const dv& q) { if (nv) return valError(xt, yt, xv, yv, q, uni ? &tr : nullptr); Krig k; k.build(xt, yt, q, uni, uni ? &tr : nullptr, false); return k.ok ? -(double)k.likelihood() : INFINITY; };
		own = value(h); double slack = nv ? 1e-7 * std::max(spread, 1e-300) + 1e-6 * std::fabs(own) : 1e-3 * std::fabs(own) + 0.02; for (int i = 0; i < N; i++) { double o = value(hyper(r, d, true)); if (o < own - slack) better++; }
		rv::count("quality comparisons"); if (std::isfinite(own)) expect(better <= N / 4, "worse-than-random:" + ctx, std::to_string(better) + " of 40 random hyperparameters are better than " + rv::fmt(h) + " value " + S(own)); else expect(false, "degenerate-hyperparameters:" + ctx, rv::fmt(h)); }
	rv::sample("{\"context\": " + rv::jstr(ctx) + ", \"hyperparameters\": " + rv::fmt(h) + ", \"factorizations\": " + std::to_string(c1) + "}");
	// no hyperparameters that any thread examined are better
	if (!nv && seen::n > 0 && spread > 0) { double own = m->calculateLikelihoodFunction(m->getHyperParameters()); rv::count("examined hyperparameters", seen::n); if (threads > 1) rv::count("trainings of several threads with monitored search"); expect(own >= seen::best - 1e-3 * std::fabs(own) - 0.02, "better-one-examined:" + ctx, "the search examined a likelihood of " + S(seen::best) + " but returned " + rv::fmt(h) + " with " + S(own)); }
	// repeated training
	if (r.chance(0.6)) { long last = c1; int reps = r.in(1, 2); for (int k = 0; k < reps; k++) { long a = factorizations; m->train(); long c = factorizations - a; h = sv(m->getHyperParameters()); expect(inBox(h), "hyperparameters-outside-repeated:" + ctx, rv::fmt(h)); compare(r, *m, reference(rows, b, h, uni), "retrained-" + ctx, 3, true); if (last > 0) rv::count("effort comparisons"); if (last > 0) expect(c >= last - last / 10 - 4, "effort-shrinks:" + ctx, std::to_string(last) + " -> " + std::to_string(c)); last = c; rv::count("repeated trainings"); } }
	if (c1 > 0) { expect(c1 >= iters, "effort-below-setting:" + ctx, std::to_string(c1) + " < " + std::to_string(iters)); expect(c1 <= 1.3 * iters + threads * 650 * d + 200, "effort-above-setting:" + ctx, std::to_string(c1) + " for " + std::to_string(iters)); rv::count("efforts judged"); }
	if (val && !nv && n) rv::count("empty validation parts");
	{ bool threw = false; try { m->setEpsilon(-r.logu(1e-12, 1)); } catch (const std::exception&) { threw = true; } expect(threw, "negative-epsilon-accepted"); }
	KrigingModel raw; raw.setDimension(d); raw.setNameOfInputFile("t.csv"); raw.setBoxConstraints(b.bounds()); expect(throws([&] { raw.train(); }) && throws([&] { raw.initializeSurrogateModel(); }), "untrained-order"); expect(throws([&] { raw.setNumberOfThreads(0); raw.setNumberOfTrainingIterations(10); raw.readData(); raw.normalizeData(); raw.initializeSurrogateModel(); raw.train(); }), "zero-threads");
}

// ---------------------------------------------------------------- K04
static void k04(Rng& r) {
	P = "K04"; int d = r.in(1, 6), n = r.in(4, 25); bool uni = r.chance(0.3); Box b = box(r, d); Func f = func(r, d); rows_t rows = sample(r, b, f, n); writeRows("t.csv", rows); unlink("m_hyperparameters.csv"); unlink("h.csv");
	auto m = makeModel("t.csv", b, uni, -1, "m"); std::string file = r.chance(0.5) ? "m_hyperparameters.csv" : "h.csv"; m->setNameOfHyperParametersFile(file); expect(m->getNameOfHyperParametersFile() == file, "file-name"); rv::distinct("d" + std::to_string(d) + " n" + std::to_string(n) + (uni ? "u" : "o"));
	bool byTraining = d <= 2 && n <= 14 && r.chance(0.3); if (byTraining) { m->setWriteWarmStartFileFlag(true); m->setNumberOfTrainingIterations(150); m->train(); rv::count("files written by training"); } else { dv h0 = hyper(r, d); if (r.chance(0.3)) for (int i = 0; i < d; i++) h0[i] *= r.logu(1e-7, 1e-2); m->setHyperParameters(mv(h0)); m->updateAuxilliaryFields(); m->saveHyperParameters(); rv::count("files saved"); }
	dv h = sv(m->getHyperParameters()); Krig ref = reference(rows, b, h, uni);
	auto load = [&](KrigingModel& c, int how) { c.setNameOfHyperParametersFile(file); if (how == 0) c.loadHyperParameters(); else { c.setReadWarmStartFileFlag(true); c.train(); } };
	int how = r.in(0, 1); auto c = makeModel("t.csv", b, uni, -1, "c"); load(*c, how); if (how == 0 && r.chance(0.5)) c->updateAuxilliaryFields();
	rv::count("reloads"); dv g = sv(c->getHyperParameters()); bool ok = g.size() == h.size(); for (size_t i = 0; ok && i < h.size(); i++) ok = rv::close(g[i], h[i], 1e-6, 1e-300); expect(ok, "hyperparameters-changed", rv::fmt(h) + " -> " + rv::fmt(g));
	if (ref.ok && ref.tol() < 1e-6) { rv::count("comparable reloads"); for (int p = 0; p < 6; p++) { dv q = query(r, ref); double f1, v1, f2, v2; m->interpolateWithVariance(mv(q), &f1, &v1); c->interpolateWithVariance(mv(q), &f2, &v2); double sc = (double)ref.yscale; expect(std::fabs(f1 - f2) <= 1e-6 * std::max(std::fabs(f1), 1e-3 * sc) + 20 * ref.tol() * sc, "prediction-changed", S(f1) + " vs " + S(f2)); expect(std::fabs(v1 - v2) <= 1e-6 * std::max(v1, v2) + (2e-9 + 100 * ref.tol()) * (double)ref.s2, "variance-changed", S(v1) + " vs " + S(v2)); } }
	if (how == 1) { Krig k = reference(rows, b, g, uni); if (ref.ok && k.ok && ref.s2 > 0) expect(k.likelihood() >= ref.likelihood() - 1e-3L * (1 + fabsl(ref.likelihood())), "warm-start-worse", S((double)ref.likelihood()) + " -> " + S((double)k.likelihood())); rv::count("warm starts"); }
	// damaged files
	std::string good = rv::slurp(file); for (int t = 0; t < 2; t++) { std::string bad = good, kind; switch (r.in(0, 6)) { case 0: kind = "missing"; unlink(file.c_str()); break; case 1: { kind = "short"; size_t p = bad.find_last_of('\n', bad.size() - 2); bad = bad.substr(0, p + 1); break; } case 2: kind = "long"; if (bad.back() != '\n') bad += "\n"; bad += "1.5\n"; break; case 3: kind = "empty"; bad = ""; break; case 4: kind = "text"; bad.insert(0, "theta\n"); break; case 5: kind = "single"; bad = "1.0\n"; break; default: kind = "garbled"; bad[r.in(0, 3) % bad.size()] = 'x'; }
		if (kind != "missing") rv::spit(file, bad); auto e = makeModel("t.csv", b, uni, -1, "e"); dv before = sv(e->getHyperParameters()); int hw = r.in(0, 1); rv::count("damaged " + kind);
		expect(throws([&] { load(*e, hw); }), std::string("damaged-accepted:") + kind + (hw ? ":warm-start" : ":load"), bad); expect(sv(e->getHyperParameters()) == before, "damaged-changed-model:" + kind); rv::spit(file, good); }
	rv::sample("{\"hyperparameters\": " + rv::fmt(h) + ", \"file\": " + rv::jstr(good) + "}");
	expect(throws([&] { m->setNameOfHyperParametersFile(""); }), "empty-file-name");
}

// ---------------------------------------------------------------- K05
static void k05(Rng& r) {
	P = "K05"; int d = r.in(1, 8), n = r.chance(0.2) ? r.in(1, d + 1) : r.in(d + 2, 60); Box b = box(r, d); Func f = func(r, d); rows_t rows = sample(r, b, f, n); writeRows("t.csv", rows); rows_t x; dv y; split(rows, d, x, y);
	auto make = [&](const Box& bb) { std::unique_ptr<LinearModel> m(new LinearModel); m->setName("lin"); m->setDimension(d); m->setNameOfInputFile("t.csv"); m->setBoxConstraints(bb.bounds()); m->readData(); m->normalizeData(); m->initializeSurrogateModel(); return m; };
	auto m = make(b); rv::distinct("d" + std::to_string(d) + " n" + std::to_string(n)); rows_t xn = kref::normalize(x, b.lb, b.ub); Trend t; t.fit(xn, y); double sc = 0; for (double v : y) sc = std::max(sc, std::fabs(v)); double tol = (1e-9 + 1e-13 * (double)t.cond) * std::max(sc, 1e-300);
	bool well = t.cond < 1e6; rv::count(well ? "well-conditioned" : "ill-conditioned");
	expect(m->getWeights().getSize() == d + 1u, "weights-size"); rows_t qs; for (int i = 0; i < 10; i++) { dv q(d); for (auto& v : q) v = r.uni(-0.5, 1.5) / d; if (i < 3) q = xn[r.in(0, n - 1)]; qs.push_back(q); double got = m->interpolate(mv(q)); if (tol < 1e-3 * sc || sc == 0) { expect(std::fabs(got - (double)t.at(q)) <= tol * 10, "prediction", S(got) + " expected " + S((double)t.at(q)) + " tolerance " + S(tol)); rv::count("predictions"); } else expect(std::isfinite(got), "prediction-not-finite"); }
	vec all = m->interpolateAll(mm(qs)); expect(all.getSize() == qs.size(), "interpolateAll-size"); for (size_t i = 0; i < qs.size(); i++) expect(all.get(i) == m->interpolate(mv(qs[i])), "interpolateAll");
	// minimiser: no small change of the weights reduces the regularised error
	if (well) { dv w = sv(m->getWeights()); auto err = [&](const dv& ww) { ld s = 0; for (int k = 0; k < n; k++) { ld e = ww[0] - y[k]; for (int j = 0; j < d; j++) e += (ld)ww[j + 1] * xn[k][j]; s += e * e; } for (double v : ww) s += 1e-8L * v * v; return s; }; ld e0 = err(w); for (int k = 0; k < 4; k++) { dv w2 = w; double st = std::max(sc, 1e-12) * r.logu(1e-4, 1); for (auto& v : w2) v += st * r.uni(-1, 1); expect(err(w2) >= e0 * (1 - 1e-9L), "not-the-minimiser", rv::fmt(w)); rv::count("minimality"); } }
	if (f.kind == 0 && n > d + 1 && well) { for (auto& u : qs) { dv uu = u; for (auto& v : uu) v *= d; double e = f(uu), g = m->interpolate(mv(u)); expect(std::fabs(e - g) <= 1e-4 * std::max(sc, f.scale), "affine-not-reproduced", S(g) + " expected " + S(e)); rv::count("affine functions"); } }
	// another box gives the same model
	if (well && n > d + 1) { Box b2 = b; for (int i = 0; i < d; i++) { double w = b.ub[i] - b.lb[i]; b2.lb[i] -= w * r.uni(0, 0.5); b2.ub[i] += w * r.uni(0, 0.5); } auto m2 = make(b2); rows_t xn2 = kref::normalize(x, b2.lb, b2.ub); Trend t2; t2.fit(xn2, y); if (t2.cond < 1e7) for (int k = 0; k < 5; k++) { dv u = unit(r, d); rows_t p{place(b, u)}; double a = m->interpolate(mv(kref::normalize(p, b.lb, b.ub)[0])), c = m2->interpolate(mv(kref::normalize(p, b2.lb, b2.ub)[0])); double ra = (double)t.at(kref::normalize(p, b.lb, b.ub)[0]), rc = (double)t2.at(kref::normalize(p, b2.lb, b2.ub)[0]); expect(std::fabs(a - c) <= std::fabs(ra - rc) + 1e-9 * sc + 1e-13 * (double)(t.cond + t2.cond) * sc, "depends-on-bounds", S(a) + " vs " + S(c)); rv::count("bounds changes"); } }
	// save and reload
	m->setNameOfHyperParametersFile("w.csv"); m->saveHyperParameters(); auto c = make(b); c->setNameOfHyperParametersFile("w.csv"); c->setWeights(vec(d + 1, 0.0)); c->loadHyperParameters(); for (auto& q : qs) { double a = m->interpolate(mv(q)), e = c->interpolate(mv(q)); expect(std::fabs(a - e) <= 1e-9 * std::max(sc, 1e-300) * (1 + (well ? 0 : 1e6)), "reloaded-weights", S(a) + " vs " + S(e)); } rv::count("reloads");
	rv::spit("w.csv", "1\n"); if (d > 0) expect(throws([&] { c->loadHyperParameters(); }), "wrong-size-weights"); unlink("w.csv"); expect(throws([&] { c->loadHyperParameters(); }), "missing-weights");
	expect(throws([&] { m->interpolateAll(mat(2, d + 1)); }), "wrong-columns"); double a, v; expect(throws([&] { m->interpolateWithVariance(vec(d), &a, &v); }) && throws([&] { m->addNewSampleToData(vec(d + 1)); }), "unsupported-accepted");
	LinearModel raw; raw.setDimension(d); expect(throws([&] { raw.train(); }) && throws([&] { raw.initializeSurrogateModel(); }), "untrained-order"); rv::sample("{\"samples\": " + std::to_string(n) + ", \"weights\": " + rv::fmt(sv(m->getWeights())) + "}");
}

// ---------------------------------------------------------------- K06
// what a surrogate model says about its own data
static void modelAccess(Rng& r) {
	int d = r.in(1, 4), n = r.in(3, 20); bool kriging = r.chance(0.6); double ratio = r.chance(0.4) ? r.uni(0, 0.6) : -1; Box b = box(r, d); Func f = func(r, d); rows_t rows = sample(r, b, f, n); writeRows("m.csv", rows); if (r.chance(0.3)) writeRows("old.csv", sample(r, b, f, n + 2));
	std::unique_ptr<KrigingModel> own; std::unique_ptr<LinearModel> own2; SurrogateModel* m; if (kriging) { own.reset(new KrigingModel); m = own.get(); } else { own2.reset(new LinearModel); m = own2.get(); } std::string ctx = std::string(kriging ? "kriging" : "linear") + (ratio >= 0 ? ":split" : "");
	m->setName("access"); m->setDimension(d); m->setNameOfInputFile("m.csv"); m->setBoxConstraints(b.bounds()); if (ratio >= 0) m->setRatioValidationSamples(ratio); m->readData(); m->normalizeData(); if (ratio < 0 && r.chance(0.5)) m->initializeSurrogateModel();
	SurrogateModelData D = m->getData(); int k = ratio > 0 ? (int)(ratio * n) : 0; expect((int)D.getNumberOfSamples() == n - k && (int)m->getNumberOfSamples() == n - k, "model-samples:" + ctx, std::to_string(m->getNumberOfSamples())); expect(m->getDimension() == (unsigned)d && m->getName() == "access" && m->getNameOfInputFile() == "m.csv", "model-names:" + ctx); expect(sm(m->getRawData()) == rows, "model-raw-data:" + ctx); if ((int)D.getNumberOfSamples() != n - k) return;
	if (r.chance(0.1)) { rv::Quiet q; m->printData(); m->printSurrogateModel(); D.print(); if (m->ifInitialized) m->printHyperParameters(); rv::count("printed models"); }
	rows_t X = sm(m->getX()); dv y = sv(m->gety()); expect(X == sm(D.getInputMatrix()) && y == sv(D.getOutputVector()) && (int)X.size() == n - k, "model-data:" + ctx); std::vector<int> hits; for (int i = 0; i < n - k; i++) { dv raw = sv(m->getRowXRaw(i)), x = sv(m->getRowX(i)); int hit = -1; for (int q = 0; q < n; q++) if (dv(rows[q].begin(), rows[q].begin() + d) == raw && rows[q][d] - y[i] == 0) hit = q; if (kriging || true) expect(hit >= 0, "model-row:" + ctx, rv::fmt(raw)); if (hit < 0) return; hits.push_back(hit); expect(x == X[i], "model-row-access:" + ctx); dv e = kref::normalize(rows_t{raw}, b.lb, b.ub)[0]; for (int j = 0; j < d; j++) expect(std::fabs(e[j] - x[j]) <= 1e-12 * (1 + std::fabs(b.lb[j]) / (b.ub[j] - b.lb[j])), "model-normalised-row:" + ctx); rv::count("model rows"); }
	for (int t = 0; t < 3; t++) { dv lo(d), hi(d); for (int j = 0; j < d; j++) { lo[j] = r.uni(b.lb[j], b.ub[j]); hi[j] = r.uni(lo[j], b.ub[j]); if (r.chance(0.4)) lo[j] = b.lb[j] - 1; if (r.chance(0.4)) hi[j] = b.ub[j] + 1; } if (r.chance(0.3)) { int q = hits[r.in(0, (int)hits.size() - 1)]; lo[0] = rows[q][0]; hi[0] = std::max(hi[0], lo[0] + 1e-3 * (b.ub[0] - b.lb[0])); }
		unsigned want = 0; for (int q : hits) { bool in = true; for (int j = 0; j < d; j++) in &= rows[q][j] >= lo[j] && rows[q][j] <= hi[j]; want += in; } unsigned got = m->countHowManySamplesAreWithinBounds(mv(lo), mv(hi)); expect(got == want, "samples-within-bounds:" + ctx, std::to_string(got) + " instead of " + std::to_string(want)); rv::count("counts within bounds"); }
}
static void k06(Rng& r) {
	P = "K06"; int d = r.in(1, 7), flavour = r.pick(std::vector<int>{0, 0, 1, 2}); Box b = box(r, d); std::unique_ptr<SurrogateModelData> D(new SurrogateModelData); std::string trace;
	if (r.chance(0.7)) D->setDimension(d); if (flavour == 1) D->setGradientsOn(); if (flavour == 2) D->setDirectionalDerivativesOn();
	int cols = flavour == 1 ? 2 * d + 1 : flavour == 2 ? 2 * d + 2 : d + 1; double ratio = 0; Box late = b; D->setBoxConstraints(b.bounds());
	rows_t rows; bool full = false, normalized = false, have = false; std::vector<int> at, vat;
	auto near = [&](double a, double e, double sc = 0) { return std::fabs(a - e) <= 1e-12 * std::max(std::fabs(e), sc) + 1e-300; };
	auto norm = [&](double x, int j) { return (double)(((ld)x - b.lb[j]) / ((ld)b.ub[j] - b.lb[j]) / d); };
	auto verify = [&](const std::string& op) {
		std::string ctx = op + (flavour == 1 ? ":gradients" : flavour == 2 ? ":tangents" : "") + (ratio > 0 && !full ? ":split" : ""); int N = rows.size(), k = full ? 0 : (int)(ratio * N); k = std::min(k, N);
		expect((int)D->getNumberOfSamples() == N - k && (int)D->getNumberOfSamplesValidation() == k, "counts:" + ctx, trace + std::to_string(D->getNumberOfSamples()) + "+" + std::to_string(D->getNumberOfSamplesValidation()) + " of " + std::to_string(N)); if ((int)D->getNumberOfSamples() != N - k) return;
		expect(D->isDataRead() && D->getDimension() == (unsigned)d, "flags:" + ctx); expect(D->isDataNormalized() == normalized, "normalized-flag:" + ctx, trace); expect(sm(D->getRawData()) == rows, "raw-data:" + ctx, trace); for (int i = 0; i < N; i++) expect(sv(D->getRowRawData(i)) == rows[i], "raw-row:" + ctx);
		// identify every training row by its raw inputs
		std::vector<int> used(N, 0); mat X = D->getInputMatrix(); vec y = D->getOutputVector(); expect((int)X.getNRows() == N - k && (int)X.getNCols() == d && (int)y.getSize() == N - k, "shape:" + ctx); int last = -1;
		for (int i = 0; i < N - k; i++) { dv raw = sv(D->getRowXRaw(i)); int hit = -1; for (int q = 0; q < N; q++) if (!used[q] && dv(rows[q].begin(), rows[q].begin() + d) == raw) { hit = q; break; } if (hit < 0) { rv::viol(P, "foreign-row:" + ctx, trace + rv::fmt(raw)); return; } used[hit]++; expect(hit > last, "order:" + ctx, trace); last = hit;
			expect(y.get(i) == rows[hit][d], "output:" + ctx, trace + S(y.get(i)) + " vs " + S(rows[hit][d])); expect(sv(D->getRowX(i)) == sv(X.getRow(i)), "row-access:" + ctx);
			for (int j = 0; j < d; j++) expect(near(X(i, j), normalized ? norm(rows[hit][j], j) : rows[hit][j], normalized ? std::fabs(b.lb[j]) / (b.ub[j] - b.lb[j]) : 0), "input:" + ctx, trace + S(X(i, j)));
			if (flavour == 1) for (int j = 0; j < d; j++) { expect(near(D->getGradientMatrix()(i, j), rows[hit][d + 1 + j] * (normalized ? (b.ub[j] - b.lb[j]) * d : 1)), "gradient:" + ctx, trace); if (normalized) expect(D->getRowGradientRaw(i).get(j) == rows[hit][d + 1 + j], "raw-gradient:" + ctx); expect(D->getRowGradient(i).get(j) == D->getGradientMatrix()(i, j), "gradient-row:" + ctx); }
			if (flavour == 2) { expect(near(D->getDirectionalDerivativesVector().get(i), rows[hit][d + 1] * (normalized ? (b.ub[0] - b.lb[0]) * d : 1)), "tangent:" + ctx, trace); for (int j = 0; j < d; j++) expect(D->getRowDifferentiationDirection(i).get(j) == rows[hit][d + 2 + j], "direction:" + ctx, trace); } }
		if (k) { mat V = D->getInputMatrixValidation(); vec yv = D->getOutputVectorValidation(); expect((int)V.getNRows() == k && (int)V.getNCols() == d && (int)yv.getSize() == k, "validation-shape:" + ctx, trace + std::to_string(V.getNRows()) + " " + std::to_string(yv.getSize())); for (int i = 0; i < std::min<int>(k, V.getNRows()); i++) { int hit = -1; for (int q = 0; q < N && hit < 0; q++) if (!used[q] && rows[q][d] == yv.get(i)) { bool all = true; for (int j = 0; j < d; j++) all &= near(V(i, j), normalized ? norm(rows[q][j], j) : rows[q][j], normalized ? std::fabs(b.lb[j]) / (b.ub[j] - b.lb[j]) : 0); if (all) hit = q; } if (hit < 0) { rv::viol(P, "validation-row:" + ctx, trace + "y " + S(yv.get(i))); return; } used[hit]++; } rv::count("split data sets"); }
		for (int q = 0; q < N; q++) expect(used[q] == 1, "partition:" + ctx, trace); rv::count("rows verified", N);
		if (N - k) { double mn = INFINITY, mx = -INFINITY; for (unsigned i = 0; i < y.getSize(); i++) { mn = std::min(mn, y.get(i)); mx = std::max(mx, y.get(i)); } expect(D->getMinimumOutputVector() == mn && D->getMaximumOutputVector() == mx, "extremes:" + ctx); }
	};
	auto fresh = [&] { int n = r.in(1, 30); rows_t q(n, dv(cols)); for (auto& x : q) { for (auto& v : x) v = r.gauss() * 10; for (int j = 0; j < d; j++) x[j] = r.uni(b.lb[j], b.ub[j]); } return q; };
	int steps = r.in(3, 8); for (int s = 0; s < steps; s++) { std::string op;
		int pickOp = have ? r.in(0, 8) : 0;
		if (pickOp == 7 || pickOp == 8) { // another kind of data, with or without a reset
			bool clean = pickOp == 7; op = clean ? "reset" : "switch"; if (clean) { D->reset(); expect(!D->isDataRead() && !D->isDataNormalized() && D->getDimension() == 0 && D->getNumberOfSamples() == 0 && D->getNumberOfSamplesValidation() == 0 && D->getNumberOfSamplesTest() == 0, "reset-flags", trace); if (r.chance(0.5)) D->setDimension(d); D->setBoxConstraints(b.bounds()); D->setValidationRatio(ratio); }
			else { D->setGradientsOff(); D->setDirectionalDerivativesOff(); } flavour = r.in(0, 2); if (flavour == 1) D->setGradientsOn(); if (flavour == 2) D->setDirectionalDerivativesOn(); cols = flavour == 1 ? 2 * d + 1 : flavour == 2 ? 2 * d + 2 : d + 1;
			rows_t next = fresh(); if ((int)(ratio * next.size()) >= (int)next.size()) { ratio = 0; D->setValidationRatio(0); } writeRows("d.csv", next); D->readData("d.csv"); rows = next; full = normalized = false; rv::count(clean ? "resets" : "switches of the kind of data"); }
		else if (pickOp <= 1) { op = "read"; rows_t next = fresh(); writeRows("d.csv", next); if (r.chance(0.4)) { ratio = r.chance(0.2) ? 0 : r.uni(0, 0.9); D->setValidationRatio(ratio); } if ((int)(ratio * next.size()) >= (int)next.size()) continue; D->readData("d.csv"); rows = next; full = normalized = false; have = true; rv::count("reads"); }
		else if (pickOp == 2 && !normalized) { op = "normalize"; D->normalize(); normalized = true; expect(D->isDataNormalized(), "flag"); rv::count("normalizations"); }
		else if (pickOp == 3) { op = "revert"; D->revertBackToFullData(); expect(D->getInputMatrixValidation().getNRows() == 0 && D->getOutputVectorValidation().getSize() == 0, "validation-part-left", trace); full = true; normalized = true; rv::count("reverts"); }
		else if (pickOp == 4) { op = "bad-file"; std::string kind; rows_t q = fresh(); switch (r.in(0, 2)) { case 0: kind = "columns"; { bool two = flavour && r.chance(0.5); for (auto& x : q) { x.push_back(1); if (two) x.push_back(1); } } writeRows("bad.csv", q); break; case 1: kind = "missing"; unlink("bad.csv"); break; default: kind = "empty"; rv::spit("bad.csv", ""); } SurrogateModelData C; C.setDimension(d); if (flavour == 1) C.setGradientsOn(); if (flavour == 2) C.setDirectionalDerivativesOn(); C.setBoxConstraints(b.bounds()); expect(throws([&] { C.readData("bad.csv"); }), "bad-file-accepted:" + kind, trace); rv::count("bad files"); }
		else if (pickOp == 5) { op = "test-data"; bool vals = r.chance(0.5); int n = r.in(1, 10); rows_t q(n, dv(d + (vals ? 1 : 0))); for (auto& x : q) { for (int j = 0; j < d; j++) x[j] = r.uni(b.lb[j], b.ub[j]); if (vals) x[d] = r.gauss(); } writeRows("e.csv", q); D->readDataTest("e.csv"); expect(D->ifTestDataHasFunctionValues == vals && D->ifTestDataIsRead && (int)D->getNumberOfSamplesTest() == n, "test-data-flags", trace + (vals ? "with" : "without")); D->normalizeSampleInputMatrixTest(); mat T = D->getInputMatrixTest(); expect((int)T.getNRows() == n && (int)T.getNCols() == d, "test-data-shape"); for (int i = 0; i < n; i++) { expect(sv(D->getRowXRawTest(i)) == q[i], "test-raw"); for (int j = 0; j < d; j++) expect(near(T(i, j), norm(q[i][j], j), std::fabs(b.lb[j]) / (b.ub[j] - b.lb[j])), "test-input", trace); expect(sv(D->getRowXTest(i)) == sv(T.getRow(i)), "test-row"); if (vals) expect(D->getOutputVectorTest().get(i) == q[i][d], "test-output"); } rv::count("test files"); }
		else { op = "ratio"; expect(throws([&] { D->setValidationRatio(-0.01); }) && throws([&] { D->setValidationRatio(1.01); }), "ratio-range"); }
		trace += op + (op == "read" ? "(" + std::to_string(rows.size()) + "," + S(ratio) + ") " : " "); rv::distinct(op + " d" + std::to_string(d) + " f" + std::to_string(flavour) + (full ? "full" : "") + (normalized ? "norm" : "")); if (have) verify(op); }
	rv::sample("{\"operations\": " + rv::jstr(trace) + "}");
	modelAccess(r);
}

// ---------------------------------------------------------------- K08
struct Capture { std::stringstream s; std::streambuf* old; Capture() { old = std::cout.rdbuf(s.rdbuf()); } ~Capture() { std::cout.rdbuf(old); } };
static void k08(Rng& r) {
	P = "K08"; int d = r.in(1, 4), n = r.in(4, 18), nt = r.in(1, 12); bool vals = r.chance(0.8); int type = r.in(0, 2); Box b = box(r, d); Func f = func(r, d); if (f.scale > 100) f.scale = 1, f.off = 0; rows_t rows = sample(r, b, f, n); writeRows("train.csv", rows);
	auto tests = [&] { rows_t t; nt = r.in(1, 12); for (int i = 0; i < nt; i++) { dv u = unit(r, d); dv x = r.chance(0.15) ? dv(rows[0].begin(), rows[0].begin() + d) : place(b, u); if (vals) x.push_back(f(u)); t.push_back(x); } writeRows("test.csv", t); return t; };
	rows_t t = tests(); dv h = hyper(r, d); Krig ref = reference(rows, b, h, type == 2); Trend tr; { rows_t x; dv y; split(rows, d, x, y); tr.fit(kref::normalize(x, b.lb, b.ub), y); }
	static const SURROGATE_MODEL types[] = {LINEAR_REGRESSION, ORDINARY_KRIGING, UNIVERSAL_KRIGING}; static const char* names[] = {"linear", "ordinary", "universal"};
	bool decide = type == 0 ? tr.cond < 1e8 : ref.ok && ref.tol() < 1e-7; double sc = 0; for (auto& q : rows) sc = std::max(sc, std::fabs(q[d]));
	auto predict = [&](const dv& x) { rows_t q{dv(x.begin(), x.begin() + d)}; dv xn = kref::normalize(q, b.lb, b.ub)[0]; return (double)(type == 0 ? tr.at(xn) : ref.at(xn)); };
	auto variance = [&](const dv& x) { rows_t q{dv(x.begin(), x.begin() + d)}; return (double)std::max((ld)0, ref.var(kref::normalize(q, b.lb, b.ub)[0])); };
	double tolP = (type == 0 ? 1e-9 + 1e-12 * (double)tr.cond : 200 * ref.tol()) * std::max(sc, 1e-12);
	std::string ctx = names[type]; bool var = type != 0 && r.chance(0.4); ctx += var ? ":variance" : ""; if (!vals) ctx += ":no-values"; rv::distinct(ctx + " d" + std::to_string(d) + " t" + std::to_string(nt)); rv::count(std::string("model ") + names[type]);
	auto judge = [&](const rows_t& rep, const std::string& w, double fix, bool exact) {
		expect(rep.size() == t.size(), "report-rows:" + w, std::to_string(rep.size())); if (rep.size() != t.size()) return; size_t cols = d + 1 + (vals ? 2 : 0) + (var ? 1 : 0);
		for (size_t i = 0; i < t.size(); i++) { auto& q = rep[i]; expect(q.size() == cols, "report-columns:" + w, std::to_string(q.size())); if (q.size() != cols) return; rv::count("report rows"); for (int j = 0; j < d; j++) expect(std::fabs(q[j] - t[i][j]) <= fix + 1e-15 * std::fabs(t[i][j]), "report-point:" + w, S(q[j]) + " vs " + S(t[i][j]));
			if (exact) expect(std::fabs(q[d] - predict(t[i])) <= fix + tolP, "report-estimate:" + w, S(q[d]) + " expected " + S(predict(t[i])));
			if (vals) { expect(std::fabs(q[d + 1] - t[i][d]) <= fix + 1e-15 * std::fabs(t[i][d]), "report-value:" + w, S(q[d + 1]) + " vs " + S(t[i][d])); double e = (q[d] - q[d + 1]) * (q[d] - q[d + 1]); expect(std::fabs(q[d + 2] - e) <= fix * (1 + 4 * std::fabs(q[d] - q[d + 1])) + 4 * fix * fix + 1e-12 * e, "report-squared-error:" + w, S(q[d + 2]) + " vs " + S(e)); }
			if (var && exact) expect(std::fabs(q.back() - variance(t[i])) <= fix + (double)ref.s2 * (200 * ref.tol() + 5e-9) + 1e-9 * variance(t[i]), "report-variance:" + w, S(q.back()) + " expected " + S(variance(t[i]))); } };
	if (r.chance(0.5)) { // through the tester
		SurrogateModelTester T; T.setName("probe"); T.setDimension(d); T.setSurrogateModel(types[type]); if (r.chance(0.3)) { T.setSurrogateModel(types[r.in(0, 2)]); T.bindSurrogateModels(); T.setSurrogateModel(types[type]); rv::count("model chosen again"); } int early = r.chance(0.5) ? r.pick(std::vector<int>{50, 3000}) : 0; if (early) T.setNumberOfTrainingIterations(early); T.bindSurrogateModels(); T.setBoxConstraints(b.bounds()); T.setFileNameTrainingData("train.csv"); T.setFileNameTestData("test.csv"); T.ifVariancesShouldBeComputedInTest = var; bool warm = type != 0 && r.chance(0.7); bool exact = type == 0 || warm; double ratio = -1;
		if (warm) { rows_t hr; for (double v : h) hr.push_back({v}); writeRows("probe_hyperparameters.csv", hr); T.ifReadWarmStart = true; } else { if (!early) T.setNumberOfTrainingIterations(early = r.pick(std::vector<int>{100, 1500})); if (type && d > 2) return; if (type && n > 6 && r.chance(0.5)) { ratio = r.uni(0.2, 0.5); T.setRatioValidationSamples(ratio); rv::count("tester with split"); } }
		int reps = r.in(1, 3); std::string first; for (int k = 0; k < reps; k++) { unlink("surrogateTestResults.csv"); if (k && r.chance(0.4)) { t = tests(); first.clear(); } std::string out; bySizeOn = true; bySize.clear(); long f0 = factorizations; { Capture c; T.performSurrogateModelTest(); out = c.s.str(); } bySizeOn = false; if (type && !warm) { long f1 = factorizations - f0; expect(f1 >= early && f1 <= 1.3 * early + 650 * d + 200, "tester-training-effort:" + ctx, std::to_string(f1) + " for " + std::to_string(early)); int nv = ratio > 0 ? (int)(ratio * n) : 0; long most = 0; int at = 0; for (auto& q : bySize) if (q.second > most) { most = q.second; at = q.first; } expect(at == n - nv, "tester-split:" + ctx, "trained on " + std::to_string(at) + " of " + std::to_string(n) + " samples, ratio " + S(ratio)); rv::count("tester trainings with monitored effort"); } if (type == 0 || warm) expect(factorizations - f0 <= 8, "tester-trained-anyway:" + ctx, std::to_string(factorizations - f0)); std::string w = "tester:" + ctx + (k ? ":repeated" : ""); rv::count("tester runs"); rv::Csv c = rv::readCsv("surrogateTestResults.csv", true); expect(c.ok, "report-file:" + w, c.error); if (!c.ok) return;
			std::vector<std::string> want; for (int i = 1; i <= d; i++) want.push_back("x" + std::to_string(i)); want.push_back("Estimated value"); if (vals) { want.push_back("True value"); want.push_back("Squared Error"); } if (var) want.push_back("Variance"); expect(c.header == want, "report-header:" + w, std::to_string(c.header.size())); judge(c.rows, w, 5.01e-7, exact && decide);
			if (vals) { size_t p = out.find("Generalization error (MSE) : "); if (p != std::string::npos) { double g = atof(out.c_str() + p + 29); ld s = 0; for (auto& q : c.rows) s += q[d + 2]; double e = (double)(s / c.rows.size()); expect(std::fabs(g - e) <= 1e-6 + 1e-9 * e, "mean-error:" + w, S(g) + " vs " + S(e)); rv::count("mean errors"); } }
			std::string all = rv::slurp("surrogateTestResults.csv"); if (exact && !first.empty()) { expect(all == first, "report-not-repeatable:" + w); rv::count("repeated reports"); } first = all; }
	} else { // through the model classes
		std::unique_ptr<LinearModel> own1(new LinearModel); std::unique_ptr<KrigingModel> own2(new KrigingModel); SurrogateModel* m = own1.get(); KrigingModel* k = nullptr; if (type != 0) { m = k = own2.get(); if (type == 2) k->setLinearRegressionOn(); } double ratio = r.chance(0.4) && n > 6 && type != 2 ? r.uni(0.1, 0.5) : -1; m->setName("probe"); m->setDimension(d); m->setNameOfInputFile("train.csv"); m->setBoxConstraints(b.bounds()); if (ratio > 0) m->setRatioValidationSamples(ratio); m->readData(); m->normalizeData(); m->initializeSurrogateModel(); if (k) { k->setHyperParameters(mv(h)); k->updateAuxilliaryFields(); }
		expect(throws([&] { m->calculateOutSampleError(); }) && throws([&] { m->tryOnTestData(); }), "test-without-data:" + ctx);
		m->setNameOfInputFileTest("test.csv"); m->setNameOfOutputFileTest("out.csv"); int reps = r.in(1, 3); for (int q = 0; q < reps; q++) { if (q && r.chance(0.5)) { vals = r.chance(0.7); t = tests(); }
			m->readDataTest(); m->normalizeDataTest(); m->tryOnTestData(var ? "with_variances" : "function_values"); rows_t rep = sm(m->testResults); std::string w = "model:" + ctx + (q ? ":repeated" : ""); judge(rep, w, 1e-12 * std::max(sc, 1.0), decide && ratio < 0); rv::count("model tests");
			for (size_t i = 0; i < t.size() && i < rep.size(); i++) { rows_t x{dv(t[i].begin(), t[i].begin() + d)}; double e = m->interpolate(mv(kref::normalize(x, b.lb, b.ub)[0])); expect(std::fabs(e - rep[i][d]) <= 1e-7 * std::max(sc, 1e-9) + (decide ? tolP : INFINITY), "estimate-not-the-prediction:" + w, S(e) + " vs " + S(rep[i][d])); }
			unlink("out.csv"); if (var) m->saveTestResultsWithVariance(); else m->saveTestResults(); rv::Csv c = rv::readCsv("out.csv", true); expect(c.ok, "saved-report:" + w, c.error); if (c.ok) { judge(c.rows, w + ":saved", 5.01e-7, decide && ratio < 0); expect(c.header.size() == rep[0].size(), "saved-header:" + w); }
			if (vals) { ld s = 0; for (auto& x : rep) s += x[d + 2]; double mean = (double)(s / rep.size()); expect(rv::close(m->generalizationError, mean, 1e-10, 1e-300), "generalization-error:" + w, S(m->generalizationError) + " vs " + S(mean)); bool v0 = var; double o = m->calculateOutSampleError(); (void)v0; expect(rv::close(o, mean, 1e-9, 1e-300 + (var ? 0 : 0)), "out-of-sample-error:" + w, S(o) + " vs " + S(mean)); rv::count("mean errors"); }
			else expect(throws([&] { m->calculateOutSampleError(); }), "out-of-sample-without-values:" + w);
			// in-sample error = mean squared error over the training samples
			SurrogateModelData D = m->getData(); ld s = 0; unsigned N = D.getNumberOfSamples(); for (unsigned i = 0; i < N; i++) { dv raw = sv(D.getRowXRaw(i)); double yv = NAN; for (auto& x : rows) if (dv(x.begin(), x.begin() + d) == raw) yv = x[d]; double e = m->interpolate(D.getRowX(i)) - yv; s += (ld)e * e; } double e = (double)(s / N), g = m->calculateInSampleError(); expect(rv::close(g, e, 1e-7, 1e-14 * sc * sc), "in-sample-error:" + w + (ratio > 0 ? ":split" : ""), S(g) + " vs " + S(e)); rv::count("in-sample errors");
		}
	}
	// unusable settings
	{ int miss = r.in(0, 11); auto run = [&] { SurrogateModelTester T; if (miss != 0) T.setName("probe"); if (miss != 1) T.setDimension(miss == 2 ? d + 1 : d); if (miss == 3) T.setRatioValidationSamples(0.2); if (miss != 4) T.setSurrogateModel(miss == 5 ? NONE : miss == 6 ? GRADIENT_ENHANCED : types[type]); if (miss == 4 || miss != 7) T.bindSurrogateModels(); if (miss == 8) T.setRatioValidationSamples(r.chance(0.5) ? 1.5 : -0.5); if (miss != 9) T.setBoxConstraints(b.bounds()); if (miss != 10) T.setFileNameTrainingData("train.csv"); if (miss != 11) T.setFileNameTestData(r.chance(0.2) ? "nothere.csv" : "test.csv"); else if (r.chance(0.5)) T.setFileNameTestData(r.pick(std::vector<std::string>{"", "a.txt", "csv", "../x.csv"})); T.setNumberOfTrainingIterations(1); Capture c; T.performSurrogateModelTest(); };
	  if (miss == 2 || true) { expect(throws(run), "unusable-accepted:" + std::to_string(miss), "missing setting " + std::to_string(miss)); rv::count("unusable " + std::to_string(miss)); } }
	rv::sample("{\"context\": " + rv::jstr(ctx) + ", \"test points\": " + std::to_string(t.size()) + "}");
}

int main(int c, char** v) {
	return rv::runCases(c, v, [](const rv::Args& a, int, Rng& r) {
		try { if (a.mode == "K01") k01(r); else if (a.mode == "K02") k02(r); else if (a.mode == "K03") k03(r); else if (a.mode == "K04") k04(r); else if (a.mode == "K05") k05(r); else if (a.mode == "K06") k06(r); else if (a.mode == "K08") k08(r); else if (a.mode == "M02") { manyThreads = true; if (rv_omp_seed) rv_omp_seed(r.next()); k03(r); rv::threadCounts(); } else exit(3); }
		catch (const std::exception& e) { rv::viol(P, std::string("unexpected-exception:") + std::string(e.what()).substr(0, 60), e.what()); }
	});
}
