// The internal evolutionary optimizer (E01) and its population (E02).
#include "rv.hpp"
#include <thread>
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
#include "InternalOptimizers/INCLUDE/ea_population.hpp"
#include "InternalOptimizers/INCLUDE/ea_individual.hpp"
using namespace Rodop;
using rv::dv; using rv::ld; using rv::Rng;
static const char* P = "?";
static dv sv(const vec& v) { dv r(v.getSize()); for (unsigned i = 0; i < v.getSize(); i++) r[i] = v.get(i); return r; }
static vec mv(const dv& r) { vec v((unsigned)r.size()); for (unsigned i = 0; i < r.size(); i++) v.set(i, r[i]); return v; }
static void expect(bool ok, const std::string& what, const std::string& d = "") { rv::count("checks"); if (!ok) rv::viol(P, what, d); }
template <class F> static bool throws(F f) { rv::count("invalid operations"); try { f(); } catch (const std::exception&) { return true; } return false; }

// ---------------------------------------------------------------- logged objectives
struct Event { dv x; double f; };
static std::vector<Event> LOG;
static int KIND, DIM; static double OFFSET, SCALE; static dv CENTER, WIDTH;
static const char* KINDS[] = {"sphere", "rastrigin", "negative", "mixed", "constant", "tiny", "huge", "plateau", "linear", "zero", "abs"};
static double value(const double* x) {
	double s = 0; for (int i = 0; i < DIM; i++) { double z = (x[i] - CENTER[i]) / WIDTH[i]; switch (KIND) { case 1: s += z * z * 10 + 1 - cos(20 * z); break; case 7: s += std::floor(4 * fabs(z)); break; case 8: s += z * (i + 1); break; case 10: s += fabs(z); break; default: s += z * z; } }
	switch (KIND) { case 2: return s - 1e3; case 3: return s - 0.3; case 4: return OFFSET; case 5: return 1e-12 * s; case 6: return 1e12 * s - 1e11; case 9: return 0; default: return SCALE * s + OFFSET; }
}
static double objective(double* x) { Event e; e.x.assign(x, x + DIM); e.f = value(x); LOG.push_back(e); return e.f; }
struct Virtual : EAOptimizer { double calculateObjectiveFunctionInternal(const vec& x) override { dv y = sv(x); return objective(y.data()); } };

static void setup(Rng& r, dv& lo, dv& hi) {
	DIM = r.in(1, 6); KIND = r.in(0, 10); OFFSET = r.chance(0.3) ? 0 : r.uni(-50, 50); SCALE = r.chance(0.3) ? 1 : r.logu(1e-6, 1e6); LOG.clear();
	lo.resize(DIM); hi.resize(DIM); CENTER.resize(DIM); WIDTH.resize(DIM); double sc = r.chance(0.3) ? r.logu(1e-4, 1e6) : 1;
	for (int i = 0; i < DIM; i++) { lo[i] = sc * r.uni(-5, 5); hi[i] = lo[i] + sc * r.logu(0.05, 5); WIDTH[i] = hi[i] - lo[i]; CENTER[i] = r.chance(0.25) ? lo[i] : r.chance(0.15) ? hi[i] : lo[i] + WIDTH[i] * r.u(); }
}

static std::string describe(int pop, int fresh, int deaths, int gens, int budget, double pm) { std::stringstream s; s << KINDS[KIND] << " dimension " << DIM << " population " << pop << " new " << fresh << " deaths " << deaths << " generations " << gens << " maximum " << budget << " mutation " << pm; return s.str(); }

template <class O> static void run(Rng& r) {
	P = "E01"; dv lo, hi; setup(r, lo, hi); bool internal = std::is_same<O, Virtual>::value;
	int pop = r.in(4, 40), fresh = r.in(1, 30), deaths = r.in(0, fresh), gens = r.in(1, 25), budget = r.chance(0.2) ? r.in(1, pop) : r.chance(0.2) ? 100000 : pop + r.in(1, gens * fresh); double pm = r.uni(0.01, 0.5);
	std::string d = describe(pop, fresh, deaths, gens, budget, pm); rv::distinct(d); O o;
	bool cube = r.chance(0.2); if (cube) { double c0 = lo[0], c1 = hi[0]; for (int i = 0; i < DIM; i++) { lo[i] = c0; hi[i] = c1; WIDTH[i] = c1 - c0; CENTER[i] = c0 + (c1 - c0) * r.u(); } rv::count("cubes"); }
	bool lists = r.chance(0.3); if (lists) rv::count("bounds given as lists");
	auto build = [&](O& q) { q.setDimension(DIM); if (cube) q.setBounds(lo[0], hi[0]); else if (lists) q.setBounds(lo, hi); else q.setBounds(mv(lo), mv(hi)); q.setInitialPopulationSize(pop); q.setNumberOfNewIndividualsInAGeneration(fresh); q.setNumberOfDeathsInAGeneration(deaths); q.setNumberOfGenerations(gens); q.setMaximumNumberOfGeneratedIndividuals(budget); q.setMutationProbability(pm); if (!internal) q.setObjectiveFunction(objective); };
	if (r.chance(0.2)) { // every missing or invalid setting is reported before anything is evaluated
		O q; int skip = r.in(0, 6); bool threw = false; LOG.clear();
		try { if (skip != 0) q.setDimension(DIM); if (skip != 0 && skip != 1) q.setBounds(lo, hi); if (skip != 2) q.setInitialPopulationSize(pop); if (skip != 3) q.setNumberOfNewIndividualsInAGeneration(fresh); q.setNumberOfDeathsInAGeneration(skip == 6 ? pop + fresh + r.in(0, 3) : deaths); if (skip != 4) q.setNumberOfGenerations(gens); if (skip != 5) q.setMaximumNumberOfGeneratedIndividuals(budget); q.setMutationProbability(pm); if (!internal) q.setObjectiveFunction(objective); q.optimize(); } catch (const std::exception&) { threw = true; }
		expect(threw && LOG.empty(), "incomplete-settings-" + std::to_string(skip), d); rv::count("incomplete settings");
		expect(throws([&] { q.setMutationProbability(0); }) && throws([&] { q.setMutationProbability(1); }) && throws([&] { q.setMutationProbability(-0.1); }) && throws([&] { q.setMaximumNumberOfGeneratedIndividuals(0); }) && throws([&] { q.setObjectiveFunction(nullptr); }), "bad-setting-accepted");
		if (DIM > 1) { O z; z.setDimension(DIM); dv a = lo, b = hi; int i = r.in(0, DIM - 1); std::swap(a[i], b[i]); expect(throws([&] { z.setBounds(mv(a), mv(b)); }) && throws([&] { z.setBounds(a, b); }) && throws([&] { z.setBounds(mv(lo), mv(dv(DIM + 1, 1e9))); }) && throws([&] { z.setBounds(lo, dv(DIM + 1, 1e9)); }) && throws([&] { z.setBounds(dv(DIM + 1, -1e9), dv(DIM + 1, 1e9)); }) && throws([&] { z.setBounds(lo, lo); }) && !z.areBoundsSet(), "bad-bounds-accepted"); }
	}
	if (r.chance(0.1)) { O q; expect(!q.isProblemNameSet() && !q.isFilenameWarmStartSet() && !q.isFilenameOptimizationHistorySet() && !q.isFilenameOptimizationResultSet() && !q.isObjectiveFunctionSet() , "settings-set-initially"); expect(throws([&] { q.setProblemName(""); }) && throws([&] { q.setFilenameWarmStart(""); }) && throws([&] { q.setFilenameOptimizationHistory(""); }) && throws([&] { q.setFilenameOptimizationResult(""); }), "empty-name-accepted"); expect(throws([&] { q.setBounds(0.0, 1.0); }), "bounds-before-dimension"); q.setDimension(DIM); expect(q.getDimension() == (unsigned)DIM, "dimension"); expect(throws([&] { q.setBounds(1.0, 1.0); }) && throws([&] { q.setBounds(1.0, -1.0); }) && !q.areBoundsSet(), "inverted-bounds-accepted"); expect(throws([&] { q.writeWarmRestartFile(); }) && throws([&] { q.readWarmRestartFile(); }), "warm-start-without-file"); q.setProblemName("p"); q.setFilenameWarmStart("nothing/here.csv"); q.setFilenameOptimizationHistory("h"); q.setFilenameOptimizationResult("s"); expect(q.isProblemNameSet() && q.isFilenameWarmStartSet() && q.isFilenameOptimizationHistorySet() && q.isFilenameOptimizationResultSet(), "settings-lost"); expect(throws([&] { q.readWarmRestartFile(); }) && throws([&] { q.writeWarmRestartFile(); }), "unreadable-warm-start"); rv::count("settings objects"); }
	build(o); bool show = r.chance(0.06); if (show) { rv::Quiet w; o.setDisplayOn(); o.printSettings(); } int repeats = r.chance(0.3) ? 2 : 1; std::vector<Event> all;
	for (int k = 0; k < repeats; k++) {
		LOG.clear(); { rv::Quiet w; o.optimize(); if (show) { o.printPopulation(); o.printSolution(); rv::count("printed optimizations"); } } rv::count("optimizations"); rv::count(std::string("objective ") + KINDS[KIND]); rv::count("evaluations", LOG.size()); all.insert(all.end(), LOG.begin(), LOG.end());
		int total = LOG.size(), g = 0; while (g < gens) { g++; if (pop + g * fresh >= budget) break; }
		if (total != pop + g * fresh) rv::viol(P, total > pop + g * fresh ? "budget-exceeded" : "budget-unused", d + ": " + std::to_string(total) + " evaluations, expected " + std::to_string(pop + g * fresh));
		double best = INFINITY; for (auto& e : LOG) { best = std::min(best, e.f); for (int i = 0; i < DIM; i++) if (!(e.x[i] >= lo[i] && e.x[i] <= hi[i])) { rv::viol(P, "outside-box", d + rv::fmt(e.x) + " box " + rv::fmt(lo) + rv::fmt(hi)); break; } }
		dv x = sv(o.getBestDesignVector()); double f = o.getBestObjectiveFunctionValue(); EAIndividual s = o.getSolution();
		expect(f == best, f > best ? "not-the-best" : "better-than-evaluated", d + ": reported " + rv::fmt(f) + ", best evaluated " + rv::fmt(best));
		expect(rv::sameBits(sv(s.getGenes()), x) && s.getObjectiveFunctionValue() == f, "getters-disagree", d);
		bool hit = false; for (auto& e : LOG) if (rv::sameBits(e.x, x) && e.f == f) hit = true; expect(hit, "solution-not-evaluated", d + rv::fmt(x) + " value " + rv::fmt(f));
		int left = pop + g * (fresh - deaths); expect((int)o.getPopulationSize() == left, "population-size", d + ": " + std::to_string(o.getPopulationSize()) + " expected " + std::to_string(left));
		// how far it explores: points differ, and every dimension is varied
		if (total > 10) for (int i = 0; i < DIM; i++) { std::set<double> vals; for (auto& e : LOG) vals.insert(e.x[i]); expect(vals.size() > 5, "dimension-not-varied", d); }
	}
	{ LOG.clear(); dv x = sv(o.getBestDesignVector()); double f = static_cast<GeneralPurposeOptimizer&>(o).callObjectiveFunction(mv(x)); expect(LOG.size() == 1 && rv::sameBits(LOG[0].x, x) && LOG[0].f == f && f == o.getBestObjectiveFunctionValue(), "direct-call", d); rv::count("direct calls"); }
	// the recorded history
	o.writeHistoryPopulationToCSV("history.csv"); rv::Csv h = rv::readCsv("history.csv", true); P = "E02"; expect(h.ok && h.rows.size() == all.size(), "history-rows", d + h.error + " rows " + std::to_string(h.rows.size()) + " evaluations " + std::to_string(all.size()));
	if (h.ok && h.rows.size() == all.size()) { std::set<double> ids; for (size_t i = 0; i < all.size(); i++) { auto& w = h.rows[i]; if (w.size() != (size_t)DIM + 5) { rv::viol(P, "history-shape", d); break; } ids.insert(w[0]); bool ok = rv::close(w[1], all[i].f, 1e-9, 1e-300); for (int j = 0; j < DIM; j++) ok = ok && rv::close(w[5 + j], all[i].x[j], 1e-9, 1e-300); if (!ok) { rv::viol(P, "history-entry", d + " row " + std::to_string(i)); break; } } expect(ids.size() == all.size(), "history-ids", d); rv::count("history rows", all.size()); }
	rv::sample("{\"run\": " + rv::jstr(d) + ", \"evaluations\": " + std::to_string(all.size()) + ", \"best\": " + rv::jstr(rv::fmt(o.getBestObjectiveFunctionValue())) + "}");
}

// Improvement over plain chance: with selection and recombination the final population is better than the initial one.
static void pressure(Rng& r) {
	P = "E01"; dv lo, hi; int better = 0, best = 0; std::string d; const int N = 6;
	for (int k = 0; k < N; k++) { setup(r, lo, hi); KIND = r.pick(std::vector<int>{0, 1, 2, 3, 5, 6, 8, 10}); EAOptimizer o; o.setDimension(DIM); o.setBounds(mv(lo), mv(hi)); o.setInitialPopulationSize(40); o.setNumberOfNewIndividualsInAGeneration(30); o.setNumberOfDeathsInAGeneration(30); o.setNumberOfGenerations(15); o.setMaximumNumberOfGeneratedIndividuals(1000000); o.setMutationProbability(0.05); o.setObjectiveFunction(objective); o.optimize(); d += std::string(KINDS[KIND]) + " ";
		double a = 0, b = 0, ba = INFINITY, bb = INFINITY; for (int i = 0; i < 40; i++) { a += LOG[i].f; ba = std::min(ba, LOG[i].f); } for (size_t i = LOG.size() - 40; i < LOG.size(); i++) { b += LOG[i].f; bb = std::min(bb, LOG[i].f); } better += b < a; best += o.getBestObjectiveFunctionValue() < ba; }
	expect(better >= N - 2 && best >= 2, "no-selection-pressure", d + std::to_string(better) + " of 6 better, " + std::to_string(best) + " improved"); rv::count("pressure runs", N); rv::distinct("pressure " + d);
}

// ---------------------------------------------------------------- populations against a model
struct M { unsigned id; double f; dv x; };
static void inspect(EAPopulation& p, std::vector<M>& m, const std::string& t) {
	expect(p.getSize() == m.size(), "size", t); if (m.empty() || p.getSize() != m.size()) return;
	std::set<unsigned> ids; double lo = INFINITY, hi = -INFINITY; for (size_t i = 0; i < m.size(); i++) { lo = std::min(lo, m[i].f); hi = std::max(hi, m[i].f); unsigned id = p.getIdOftheIndividual(i); expect(id == m[i].id && p.getIndividualIdInPopulationByOrder(i) == id && p.getIndividualOrderInPopulationById(id) == (int)i, "order", t); EAIndividual e = p.getIndividual(m[i].id); expect(e.getId() == m[i].id && e.getObjectiveFunctionValue() == m[i].f && rv::sameBits(sv(e.getGenes()), m[i].x), "member", t); ids.insert(id); }
	expect(p.hasRepeatedIDs() == (ids.size() != m.size()), "repeated-ids", t);
	EAIndividual b = p.getTheBestIndividual(), w = p.getTheWorstIndividual(); expect(b.getObjectiveFunctionValue() == lo, "best", t + " best " + rv::fmt(b.getObjectiveFunctionValue()) + " minimum " + rv::fmt(lo)); expect(w.getObjectiveFunctionValue() == hi, "worst", t + " worst " + rv::fmt(w.getObjectiveFunctionValue()) + " maximum " + rv::fmt(hi)); rv::count("populations inspected");
}
static void probabilities(EAPopulation& p, std::vector<M>& m, const std::string& t, Rng& r) {
	if (m.size() < 2) return; p.updatePopulationProperties(); inspect(p, m, t + "update "); double lo = INFINITY, rs = 0, ds = 0, bestDeath = 0; for (auto& e : m) lo = std::min(lo, e.f); unsigned bid = p.getTheBestIndividual().getId();
	std::vector<EAIndividual> I; for (auto& e : m) I.push_back(p.getIndividual(e.id));
	for (auto& e : I) { double f = e.getFitnessValue(), a = e.getReproductionProbability(), b = e.getDeathProbability(); expect(f > 0 && f <= 1 && a > 0 && a < 1 && b >= 0 && b <= 1, "ranges", t + rv::fmt({f, a, b})); rs += a; ds += b; if (e.getId() == bid) bestDeath = b; if (e.getObjectiveFunctionValue() == lo) expect(f == 1, "best-fitness", t + rv::fmt(f)); }
	expect(fabs(rs - 1) < 1e-10 && fabs(ds - 1) < 1e-10 && fabs(p.calculateSumOfDeathProbabilities() - ds) < 1e-12, "sums", t + rv::fmt({rs, ds})); expect(bestDeath == 0, "best-can-die", t);
	for (size_t i = 0; i < I.size(); i++) for (size_t j = 0; j < I.size(); j++) if (I[i].getObjectiveFunctionValue() < I[j].getObjectiveFunctionValue()) { if (!(I[i].getFitnessValue() >= I[j].getFitnessValue())) rv::viol(P, "fitness-not-monotone", t); if (!(I[i].getReproductionProbability() >= I[j].getReproductionProbability())) rv::viol(P, "reproduction-not-monotone", t); if (!(I[i].getDeathProbability() <= I[j].getDeathProbability() + 1e-15)) rv::viol(P, "death-not-monotone", t); }
	{ double hi = -INFINITY; for (auto& e : m) hi = std::max(hi, e.f); if (hi > lo) { double worst = 1; for (auto& e : I) if (e.getObjectiveFunctionValue() == hi) worst = e.getFitnessValue(); expect(worst < 1, "no-discrimination", t); } }
	rv::count("probability assignments");
	// draws follow the probabilities
	int n = r.chance(0.1) ? 4000 : 30; std::map<unsigned, int> rep, die; for (int k = 0; k < n; k++) { rep[p.pickUpARandomIndividualForReproduction().getId()]++; unsigned q = p.pickUpAnIndividualThatWillDie().getId(); die[q]++; if (q == bid) rv::viol(P, "best-dies", t); auto pr = p.generateRandomParents(); expect(pr.first.getId() != pr.second.getId(), "same-parents", t); }
	rv::count("draws", 4 * n); if (n > 1000) for (auto& e : I) { double a = e.getReproductionProbability(), b = e.getDeathProbability(); if (fabs(rep[e.getId()] - n * a) > 7 * sqrt(n * a * (1 - a)) + 7) rv::viol(P, "reproduction-frequency", t + rv::fmt({a, (double)rep[e.getId()] / n})); if (fabs(die[e.getId()] - n * b) > 7 * sqrt(n * b * (1 - b)) + 7) rv::viol(P, "death-frequency", t + rv::fmt({b, (double)die[e.getId()] / n})); }
}
static void populations(Rng& r) {
	P = "E02"; int d = r.in(1, 5); EAPopulation p; p.setDimension(d); std::vector<M> m; unsigned next = r.chance(0.3) ? r.in(0, 5) : 1; std::string t; int kind = r.in(0, 6);
	auto val = [&] { switch (kind) { case 0: return r.uni(-1, 1); case 1: return -r.logu(1e-3, 1e6); case 2: return r.logu(1e-3, 1e6); case 3: return (double)r.in(-2, 2); case 4: return 7.0; case 5: return r.uni(-1, 1) * 1e-13; default: return r.gauss() * 1e10; } };
	auto make = [&](M& e) { e.id = next++; e.f = val(); e.x.resize(d); for (auto& q : e.x) q = r.uni(-3, 3); EAIndividual i(d); if (r.chance(0.1)) i.initializeRandom(); i.setId(e.id); i.initializeGenes(mv(e.x)); i.setObjectiveFunctionValue(e.f); expect(i.getDimension() == (unsigned)d && i.getId() == e.id, "individual"); return i; };
	rv::distinct("population kind" + std::to_string(kind) + " d" + std::to_string(d));
	for (int s = 0; s < 25; s++) {
		int op = r.in(0, 9); rv::distinct("op" + std::to_string(op) + " kind" + std::to_string(kind) + " size" + std::to_string(std::min<int>(m.size(), 12)));
		if (op <= 2 || m.empty()) { M e; p.addIndividual(make(e)); m.push_back(e); t += "add "; }
		else if (op == 3) { int n = r.in(0, 6); std::vector<EAIndividual> g; for (int k = 0; k < n; k++) { M e; g.push_back(make(e)); m.push_back(e); } p.addAGroupOfIndividuals(g); t += "group" + std::to_string(n) + " "; }
		else if (op == 4) { // often an extreme
			size_t k = r.in(0, m.size() - 1); if (r.chance(0.6)) for (size_t i = 0; i < m.size(); i++) if (r.chance(0.5) ? m[i].f < m[k].f : m[i].f > m[k].f) k = i; p.removeIndividualById(m[k].id); m.erase(m.begin() + k); t += "removeId "; }
		else if (op == 5) { size_t k = r.chance(0.3) ? 0 : r.in(0, m.size() - 1); p.removeIndividual(k); m.erase(m.begin() + k); t += "remove "; }
		else if (op == 6 && m.size() > 1) { p.updatePopulationProperties(); unsigned q = p.pickUpAnIndividualThatWillDie().getId(); double lo = INFINITY; for (auto& e : m) lo = std::min(lo, e.f); size_t k = 0; while (m[k].id != q) k++; p.removeIndividualById(q); m.erase(m.begin() + k); double after = INFINITY; for (auto& e : m) after = std::min(after, e.f); expect(after == lo, "best-lost", t); t += "die "; rv::count("deaths"); }
		else if (op == 7 && m.size() > 1) { p.updatePopulationProperties(); p.writeToCSV("pop.csv"); EAPopulation q; q.setDimension(d); if (r.chance(0.5)) { M e; unsigned keep = next; EAIndividual z = make(e); next = keep; q.addIndividual(z); } q.readFromCSV("pop.csv"); expect(q.getSize() == p.getSize(), "csv-size", t); if (q.getSize() == p.getSize()) for (size_t i = 0; i < m.size(); i++) { EAIndividual a = q.getIndividual(m[i].id), b = p.getIndividual(m[i].id); bool ok = rv::close(a.getObjectiveFunctionValue(), m[i].f, 1e-9, 1e-300) && rv::close(a.getFitnessValue(), b.getFitnessValue(), 1e-9) && rv::close(a.getReproductionProbability(), b.getReproductionProbability(), 1e-9) && rv::close(a.getDeathProbability(), b.getDeathProbability(), 1e-9) && q.getIdOftheIndividual(i) == m[i].id; for (int j = 0; j < d; j++) ok = ok && rv::close(a.getGenes().get(j), m[i].x[j], 1e-9); expect(ok, "csv-member", t); } double lo = INFINITY, hi = -INFINITY; for (size_t i = 0; i < m.size(); i++) { double f = q.getIndividual(m[i].id).getObjectiveFunctionValue(); lo = std::min(lo, f); hi = std::max(hi, f); } expect(q.getTheBestIndividual().getObjectiveFunctionValue() == lo && q.getTheWorstIndividual().getObjectiveFunctionValue() == hi, "csv-extremes", t); rv::count("csv round trips"); t += "csv "; if (r.chance(0.2)) { std::string txt = rv::slurp("pop.csv"); size_t c = txt.rfind(','); rv::spit("bad.csv", txt.substr(0, c + 1) + "\n"); EAPopulation z; z.setDimension(d); expect(throws([&] { z.readFromCSV("bad.csv"); }) && throws([&] { z.readFromCSV("nope.csv"); }) && throws([&] { z.readFromCSV(""); }), "bad-csv-accepted"); } }
		else if (op == 8) { expect(throws([&] { p.removeIndividual(m.size()); }) && throws([&] { p.addIndividual(EAIndividual(d + 1)); }), "invalid-accepted", t); expect(p.getIndividualOrderInPopulationById(next + 5) == -1, "found-absent"); if (m.empty()) expect(throws([&] { p.updatePopulationProperties(); }), "empty-accepted"); t += "invalid "; }
		else if (op == 9 && r.chance(0.3)) { if (r.chance(0.3)) { p.reset(); m.clear(); t += "reset "; } else if (m.size() > 1) { EAPopulation q = p; p = q; t += "copy "; } }
		inspect(p, m, t); probabilities(p, m, t, r); if (r.chance(0.01)) { rv::Quiet w; p.print(); if (!m.empty()) p.getIndividual(m[0].id).print(); rv::count("printed populations"); }
	}
	rv::sample("{\"operations\": " + rv::jstr(t.substr(0, 400)) + "}");
}

// ---------------------------------------------------------------- the optimizer generation by generation
static void generations(Rng& r) {
	P = "E02"; dv lo, hi; setup(r, lo, hi); int pop = r.in(4, 25), fresh = r.in(1, 15), deaths = r.in(0, fresh); EAOptimizer o; o.setDimension(DIM); o.setBounds(mv(lo), mv(hi)); o.setInitialPopulationSize(pop); o.setNumberOfNewIndividualsInAGeneration(fresh); o.setNumberOfDeathsInAGeneration(deaths); o.setNumberOfGenerations(3); o.setMaximumNumberOfGeneratedIndividuals(1000000); o.setMutationProbability(r.uni(0.01, 0.9)); o.setObjectiveFunction(objective);
	std::string d = describe(pop, fresh, deaths, 3, 1000000, 0); rv::distinct("step " + d); expect(throws([&] { o.generateRandomParents(); }), "parents-before-initialization"); o.initializePopulation(); expect((int)o.getPopulationSize() == pop && (int)LOG.size() == pop, "initial-size", d); double best = INFINITY; for (auto& e : LOG) best = std::min(best, e.f); expect(o.getBestObjectiveFunctionValue() == best, "initial-best", d);
	int size = pop; for (int g = 0; g < 6; g++) { LOG.clear(); o.generateANewGeneration(); rv::count("generations"); size += fresh - deaths; expect((int)o.getPopulationSize() == size && (int)LOG.size() == fresh, "generation-size", d + " " + std::to_string(o.getPopulationSize()) + " expected " + std::to_string(size)); for (auto& e : LOG) best = std::min(best, e.f); expect(o.getBestObjectiveFunctionValue() == best, "best-lost", d + " generation " + std::to_string(g));
		for (int k = 0; k < 3; k++) { auto pr = o.generateRandomParents(); expect(pr.first.getId() != pr.second.getId(), "same-parents", d); dv c = sv(o.crossOver(pr)); for (int i = 0; i < DIM; i++) if (!(c[i] >= lo[i] && c[i] <= hi[i])) rv::viol(P, "child-outside", d); rv::count("children"); expect(throws([&] { o.crossOver(std::make_pair(pr.first, pr.first)); }), "self-crossover"); dv y = sv(pr.first.getGenes()); vec v = mv(y); o.applyMutation(v); for (int i = 0; i < DIM; i++) if (!(v(i) >= lo[i] && v(i) <= hi[i])) rv::viol(P, "mutant-outside", d); } }
	{ // recombination stays around its parents, mutation changes each gene with the given probability to any value of the box
		auto pr = o.generateRandomParents(); dv a = sv(pr.first.getGenes()), b = sv(pr.second.getGenes()), sum(DIM), in(DIM); const int n = 300; o.setMutationProbability(1e-12);
		for (int k = 0; k < n; k++) { dv c = sv(o.crossOver(pr)); for (int i = 0; i < DIM; i++) { sum[i] += c[i]; double mid = (a[i] + b[i]) / 2, w = fabs(a[i] - b[i]), off = fabs(c[i] - mid); if (w > 0 && off > 1.5 * w + 1e-12 * WIDTH[i]) rv::viol(P, "child-far-from-parents", d + rv::fmt({a[i], b[i], c[i]})); if (c[i] != mid) in[i]++; } }
		for (int i = 0; i < DIM; i++) { double mid = (a[i] + b[i]) / 2, w = fabs(a[i] - b[i]); bool near = mid - w < lo[i] || mid + w > hi[i]; if (w > 1e-9 * WIDTH[i]) { expect(in[i] > n / 2, "child-not-varied", d); if (!near) expect(fabs(sum[i] / n - mid) < 0.12 * w, "child-biased", d + rv::fmt({a[i], b[i], sum[i] / n})); } } rv::count("recombinations", n);
		double q = r.chance(0.5) ? r.uni(0.02, 0.2) : r.uni(0.2, 0.95); o.setMutationProbability(q); const int N = 1200; int changed = 0; dv mean(DIM), mn(DIM, INFINITY), mx(DIM, -INFINITY), cnt(DIM);
		for (int k = 0; k < N; k++) { vec v = mv(a); o.applyMutation(v); for (int i = 0; i < DIM; i++) if (v(i) != a[i]) { changed++; cnt[i]++; mean[i] += v(i); mn[i] = std::min(mn[i], v(i)); mx[i] = std::max(mx[i], v(i)); } }
		double M = (double)N * DIM; expect(fabs(changed - M * q) <= 7 * sqrt(M * q * (1 - q)) + 2, "mutation-frequency", d + " probability " + rv::fmt(q) + " observed " + rv::fmt(changed / M)); rv::count("mutations", changed);
		for (int i = 0; i < DIM; i++) if (cnt[i] > 200) { double w = WIDTH[i]; expect(fabs(mean[i] / cnt[i] - (lo[i] + hi[i]) / 2) < 7 * w / sqrt(12 * cnt[i]) && mn[i] < lo[i] + 0.15 * w && mx[i] > hi[i] - 0.15 * w, "mutants-not-over-the-box", d + rv::fmt({lo[i], hi[i], mn[i], mx[i], mean[i] / cnt[i]})); expect(fabs(cnt[i] - N * q) <= 7 * sqrt(N * q * (1 - q)) + 2, "gene-mutation-frequency", d + " gene " + std::to_string(i)); }
		vec bad = mv(a); EAOptimizer z; z.setDimension(DIM); expect(throws([&] { z.applyMutation(bad); }), "mutation-without-settings"); z.setMutationProbability(0.5); expect(throws([&] { z.applyMutation(bad); }) && rv::sameBits(sv(bad), a), "mutation-without-bounds"); }
	// warm start: the written population is continued with fresh identifiers
	o.setFilenameWarmStart("warm.csv"); o.writeWarmRestartFile(); rv::Csv w = rv::readCsv("warm.csv", true); expect(w.ok && (int)w.rows.size() == size, "warm-file", d + w.error); if (!w.ok) return; std::set<double> ids; double top = 0, wbest = INFINITY; for (auto& x : w.rows) { ids.insert(x[0]); top = std::max(top, x[0]); wbest = std::min(wbest, x[1]); } expect((int)ids.size() == size, "repeated-ids", d); expect(rv::close(wbest, best, 1e-9, 1e-300), "warm-best", d);
	EAOptimizer q; q.setDimension(DIM); q.setBounds(mv(lo), mv(hi)); q.setInitialPopulationSize(pop); q.setNumberOfNewIndividualsInAGeneration(fresh); q.setNumberOfDeathsInAGeneration(deaths); q.setNumberOfGenerations(2); q.setMaximumNumberOfGeneratedIndividuals(1000000); q.setMutationProbability(0.1); q.setObjectiveFunction(objective); q.setWarmStartOn(); LOG.clear(); expect(throws([&] { q.optimize(); }) && LOG.empty(), "warm-without-file"); q.setFilenameWarmStart("warm.csv"); bool used = r.chance(0.5); if (used) { q.setWarmStartOff(); q.initializePopulation(); q.setWarmStartOn(); }
	LOG.clear(); q.optimize(); rv::count("warm starts"); expect((int)LOG.size() == 2 * fresh, "warm-budget", d + " " + std::to_string(LOG.size())); expect((int)q.getPopulationSize() == size + 2 * (fresh - deaths), "warm-size", d); double nb = wbest; for (auto& e : LOG) nb = std::min(nb, e.f); expect(q.getBestObjectiveFunctionValue() == nb, "warm-best-lost", d); q.setFilenameWarmStart("warm2.csv"); q.writeWarmRestartFile(); rv::Csv z = rv::readCsv("warm2.csv", true); ids.clear(); for (auto& x : z.rows) ids.insert(x[0]); expect(z.ok && ids.size() == z.rows.size(), "warm-repeated-ids", d);
	if (r.chance(0.3)) { q.setWarmStartOff(); LOG.clear(); q.optimize(); double fb = INFINITY; for (auto& e : LOG) fb = std::min(fb, e.f); expect((int)LOG.size() == pop + 2 * fresh && q.getBestObjectiveFunctionValue() == fb, "warm-start-not-off", d + " " + std::to_string(LOG.size())); q.resetPopulation(); expect(q.getPopulationSize() == 0 && throws([&] { q.generateRandomParents(); }), "population-not-reset", d); LOG.clear(); q.optimize(); expect((int)LOG.size() == pop + 2 * fresh && (int)q.getPopulationSize() == pop + 2 * (fresh - deaths), "run-after-reset", d); rv::count("fresh runs after a warm start"); }
}
static void individuals(Rng& r) {
	P = "E02"; int d = r.in(1, 6); EAIndividual e(d); dv mn(d, INFINITY), mx(d, -INFINITY); double fmn = INFINITY, fmx = -INFINITY; for (int k = 0; k < 60; k++) { e.initializeRandom(); for (int i = 0; i < d; i++) { double x = e.getGenes().get(i); mn[i] = std::min(mn[i], x); mx[i] = std::max(mx[i], x); } fmn = std::min(fmn, e.getObjectiveFunctionValue()); fmx = std::max(fmx, e.getObjectiveFunctionValue()); double a = e.getReproductionProbability(), b = e.getDeathProbability(), f = e.getFitnessValue(); expect(a >= 0 && a < 1 && b >= 0 && b <= 1 && f >= 0 && f <= 1, "random-individual", rv::fmt({a, b, f})); }
	for (int i = 0; i < d; i++) expect(mn[i] >= 0 && mx[i] < 1 && mn[i] < 0.4 && mx[i] > 0.6, "random-genes", rv::fmt({mn[i], mx[i]})); expect(fmn < fmx, "random-value");
	EAIndividual z; expect(throws([&] { z.initializeRandom(); }), "random-without-dimension");
	double p = r.uni(0.001, 0.999); e.setReproductionProbabilityValue(p); e.setDeathProbabilityValue(p); expect(e.getReproductionProbability() == p && e.getDeathProbability() == p, "probability-lost");
	for (double bad : {-0.1, 1.0, 1.1, 2.0, 0.0}) expect(throws([&] { e.setReproductionProbabilityValue(bad); }) && e.getReproductionProbability() == p, "bad-reproduction-probability", rv::fmt(bad)); for (double bad : {-0.1, 1.001, 2.0}) expect(throws([&] { e.setDeathProbabilityValue(bad); }) && e.getDeathProbability() == p, "bad-death-probability", rv::fmt(bad)); e.setDeathProbabilityValue(0); expect(e.getDeathProbability() == 0, "zero-death");
	dv x(d); for (auto& q : x) q = r.gauss(); e.initializeGenes(mv(x)); expect(rv::sameBits(sv(e.getGenes()), x), "genes"); expect(throws([&] { e.initializeGenes(vec(d + 1)); }) && rv::sameBits(sv(e.getGenes()), x), "wrong-genes"); EAIndividual c = e; c.setGenes(mv(dv(d, 5.0))); expect(rv::sameBits(sv(e.getGenes()), x), "copied-individual"); rv::count("random individuals", 60);
}

int main(int argc, char** argv) {
	return rv::runCases(argc, argv, [](const rv::Args& a, int k, Rng& r) {
		// thread-local generators: a fresh thread makes a case a function of seed and case only
		std::thread([&] {
			try {
				if (a.mode == "E01") { if (k % 12 == 0) pressure(r); else if (k % 3 == 0) run<Virtual>(r); else run<EAOptimizer>(r); }
				else if (a.mode == "E02") { if (k % 10 == 4) individuals(r); if (k % 3 == 0) generations(r); else if (k % 7 == 1) run<EAOptimizer>(r); else populations(r); }
				else exit(3);
			} catch (const std::exception& e) { rv::viol(P, "unexpected-exception", e.what()); }
		}).join();
	});
}
