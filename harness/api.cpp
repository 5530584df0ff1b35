// C03: sequences of calls of the programming interface, valid and not, against what they ask for.
#include "study.hpp"
#include "API/INCLUDE/rodeoapi.h"
Monitor* M = nullptr;
double constraintFunction0(double* x) { return M->udf(0, x); }
double constraintFunction1(double* x) { return M->udf(1, x); }
double constraintFunction2(double* x) { return M->udf(2, x); }
double constraintFunction3(double* x) { return M->udf(3, x); }
static long decoys = 0;
static double decoy(const double*) { decoys++; return 1; }
static std::string dir0;

static Spec spec(Rng& r) {
	Spec s; s.api = true; s.d = r.chance(0.5) ? 1 : r.in(2, 3);
	int box = r.in(0, 3); for (int i = 0; i < s.d; i++) { double w = box == 0 ? 1 : box == 1 ? r.in(1, 20) : r.logu(1e-2, 1e3), a = box == 0 ? 0 : box == 1 ? r.in(-10, 10) : r.uni(-3, 2) * w; s.lb.push_back(a); s.ub.push_back(a + w); }
	s.obj = randomFn(r, s); s.N = r.in(1, 3); s.doe = r.chance(0.75) ? r.in(4, 9) : 0; s.lhs = r.chance(0.5);
	std::vector<std::string> files = {"obj.csv", "data.dat", "training set.csv"}; s.file = r.pick(files);
	int nc = r.in(0, 3); std::vector<dv> pts; for (int k = 0; k < (s.doe ? 0 : r.in(4, 9)); k++) { pts.push_back(randomPoint(r, s)); dv q = pts.back(); q.push_back(s.obj(q.data())); s.rows.push_back(q); } s.newline = !r.chance(0.2);
	for (int j = 0; j < nc; j++) { Con c; c.f = randomFn(r, s); c.gt = r.chance(0.5); c.name = std::vector<std::string>{"g", "Constraint_", "c."}[r.in(0, 2)] + std::to_string(j); c.file = "con" + std::to_string(j) + ".csv"; c.thr = c.f(randomPoint(r, s).data()); if (r.chance(0.3)) c.thr = std::vector<double>{0, 1, -2.5, 1e-3, 100}[r.in(0, 4)]; for (auto& p : pts) { dv q = p; q.push_back(c.f(q.data())); c.rows.push_back(q); } s.con.push_back(c); }
	return s;
}
static std::string expression(Rng& r, const Con& c) { auto sp = [&] { return std::vector<std::string>{" ", " ", "  ", "\t"}[r.in(0, 3)]; }; char b[64]; snprintf(b, sizeof b, r.chance(0.5) ? "%.17g" : "%.17e", c.thr); return (r.chance(0.2) ? " " : "") + c.name + sp() + (c.gt ? ">" : "<") + sp() + b + (r.chance(0.2) ? " " : ""); }
static const std::vector<std::string>& wrongExpressions() { static std::vector<std::string> v = {"", "   ", "g", "g <", "g >", "g < abc", "< 3", "g <= 3", "g >= 3", "g = 3", "g == 3", "g < 3 4", "g < 3abc", "g < nan", "g < inf", "g < -", "g < 1e999", "g << 3", "g 3", "g < < 3", "g lt 3", "g < 3 > 2", "g < 3,5", "g !< 3", "g < --3", "g > 1e", "3 <"}; return v; }

// O is the implementation or its public wrapper
template <class O> struct Session {
	O o; Monitor& m; Rng& r; Spec& s; std::string trace; std::vector<std::string> dirs;
	Session(Monitor& m_, Rng& r_) : m(m_), r(r_), s(m_.s) {}
	void bad(const std::string& k, const std::string& d) { m.bad("C03", k, d + "  after:" + trace); }
	void ok(const std::string& what, const std::function<void()>& f) { trace += " " + what; try { f(); rv::count("valid calls"); } catch (const std::exception& e) { bad("valid-call-rejected", what + ": " + e.what()); } called(what); }
	void wrong(const std::string& what, const std::function<void()>& f) { trace += " !" + what; rv::count("misuses"); rv::distinct("misuse " + what); try { f(); bad("misuse-accepted", what); } catch (const std::exception& e) { if (!*e.what()) bad("no-message", what); } called(what); }
	void called(const std::string& what) { if (m.total || decoys) bad("function-called", what + " calls a function"); }
	void misuse() {
		dv l(s.lb), u(s.ub); int i = r.in(0, s.d - 1);
		switch (r.in(0, 13)) {
		case 0: wrong("null objective", [&] { o.setObjectiveFunction(nullptr, "objf", "x.csv"); }); break;
		case 1: wrong("objective without name", [&] { o.setObjectiveFunction(decoy, "", "x.csv"); }); break;
		case 2: wrong("objective without file", [&] { o.setObjectiveFunction(decoy, "objf", ""); }); break;
		case 3: wrong("null constraint", [&] { o.addConstraint(nullptr, "g < 1", "x.csv"); }); break;
		case 4: wrong("constraint without file", [&] { o.addConstraint(decoy, "g < 1", ""); }); break;
		case 5: case 6: { std::string e = r.pick(wrongExpressions()); wrong("expression '" + e + "'", [&] { o.addConstraint(decoy, e, "x.csv"); }); break; }
		case 7: { std::string e = r.pick(std::vector<std::string>{"", "sobol", "lhs ", "randomly", "L H S"}); wrong("strategy '" + e + "'", [&] { o.setDoEStrategy(e); }); break; }
		case 8: { std::string e = r.pick(std::vector<std::string>{"", "./missing", dir0 + "/nothing/here", dir0 + "/file"}); wrong(e.empty() ? "no directory" : e[0] == '.' ? "missing directory" : e.back() == 'e' ? "file as directory" : "directory", [&] { o.setCurrentWorkingDirectory(e); }); break; }
		case 9: wrong("no name", [&] { o.setName(""); }); break;
		case 10: wrong("no training data file name", [&] { o.setNameOfTrainingDataFile(""); }); break;
		default: { int k = r.in(0, 6); const char* n[] = {"null lower bounds", "null upper bounds", "reversed bounds", "equal bounds", "nan bound", "infinite bound", "nearly equal bounds"}; if (k == 2) std::swap(l[i], u[i]); if (k == 3) l[i] = u[i]; if (k == 4) (r.chance(0.5) ? l[i] : u[i]) = NAN; if (k == 5) { if (r.chance(0.5)) u[i] = INFINITY; else l[i] = -INFINITY; } if (k == 6) l[i] = std::nextafter(u[i], INFINITY);
			wrong(n[k], [&] { o.setBoxConstraints(k == 0 ? nullptr : l.data(), k == 1 ? nullptr : u.data()); }); box = false; }
		}
	}
	bool box = false, dim = false;
	void setBox() { ok("box", [&] { dv l = s.lb, u = s.ub; o.setBoxConstraints(l.data(), u.data()); for (auto& q : l) q = -777; for (auto& q : u) q = 777; }); box = true; }
	void dimension(unsigned d) { ok("dimension " + std::to_string(d), [&] { o.setDimension(d); }); dim = d == (unsigned)s.d; box = false; }
	void objective(bool real) { if (real) ok("objective", [&] { o.setObjectiveFunction(cbOf(0), "objf", s.file); }); else ok("other objective", [&] { o.setObjectiveFunction(decoy, "decoy", "decoy.csv"); }); }
	// calls everything in a random order; skip: one thing that stays unset
	void setUp(const std::string& skip, double misuseRate) {
		std::vector<std::string> todo = {"name", "dir", "dim", "obj", "N", "cons"}; if (s.doe) { todo.push_back("doe"); if (s.lhs || r.chance(0.7)) todo.push_back("strategy"); }
		todo.erase(std::remove(todo.begin(), todo.end(), skip), todo.end()); std::vector<std::string> v;
		for (auto& t : todo) { v.push_back(t); if (r.chance(0.35) && t != "cons") v.insert(v.begin(), "other " + t); }
		// an overridden setting comes before the real one; otherwise any order
		for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.in(0, i)]);
		for (auto& t : todo) { size_t a = std::find(v.begin(), v.end(), t) - v.begin(), b = std::find(v.begin(), v.end(), "other " + t) - v.begin(); if (b < v.size() && b > a) std::swap(v[a], v[b]); }
		bool file = r.chance(0.3) && skip != "obj", early = r.chance(0.5); size_t con = 0;
		auto other = [&](const std::string& t) {
			if (t == "name") ok("other name", [&] { o.setName("other"); });
			if (t == "dir") ok("other directory", [&] { o.setCurrentWorkingDirectory(dir0 + "/other"); });
			if (t == "dim") { dimension(s.d + r.in(1, 3)); if (r.chance(0.5)) ok("other box", [&] { dv l(s.d + 3, -1000), u(s.d + 3, -900); o.setBoxConstraints(l.data(), u.data()); }); }
			if (t == "obj") objective(false);
			if (t == "N") ok("other budget", [&] { o.setMaxNumberOfFunctionEvaluations(s.N + r.in(1, 4)); });
			if (t == "doe") ok("other DoE", [&] { o.setDoEOn(s.doe + r.in(1, 9)); });
			if (t == "strategy") ok("other strategy", [&] { o.setDoEStrategy(s.lhs ? "random" : "lhs"); });
		};
		for (auto& t : v) {
			while (r.chance(misuseRate)) misuse();
			if (t.compare(0, 6, "other ") == 0) { other(t.substr(6)); continue; }
			if (t == "name") ok("name", [&] { o.setName("study"); });
			if (t == "dir") ok("directory", [&] { o.setCurrentWorkingDirectory(r.chance(0.5) ? dir0 + "/work" : "./work"); });
			if (t == "dim") { dimension(s.d); if (skip != "box" && early) { if (r.chance(0.4)) ok("other box", [&] { dv l(s.d, -1000), u(s.d, -900); o.setBoxConstraints(l.data(), u.data()); }); setBox(); } }
			if (t == "obj") { if (file) { ok("objective elsewhere", [&] { o.setObjectiveFunction(cbOf(0), "objf", "elsewhere.csv"); }); if (r.chance(0.5)) { ok("file", [&] { o.setNameOfTrainingDataFile(s.file); }); file = false; } } else objective(true); }
			if (t == "N") ok("budget", [&] { o.setMaxNumberOfFunctionEvaluations(s.N); });
			if (t == "doe") ok("DoE", [&] { o.setDoEOn(s.doe); });
			if (t == "strategy") ok("strategy", [&] { o.setDoEStrategy(std::vector<std::string>{s.lhs ? "LHS" : "Random", s.lhs ? "lhs" : "RANDOM", s.lhs ? "Lhs" : "random"}[r.in(0, 2)]); });
			if (t == "cons") { size_t n = r.in(0, (int)s.con.size()); for (; con < n; con++) addCon(con); }
		}
		while (con < s.con.size()) { while (r.chance(misuseRate)) misuse(); if (skip == "cons") break; addCon(con++); }
		if (file) ok("file", [&] { o.setNameOfTrainingDataFile(s.file); });
		if (skip != "dim" && !dim) dimension(s.d);
		if (skip == "box" || skip == "dim") return; if (!box) setBox(); if (r.chance(0.2)) { ok("dimension again", [&] { o.setDimension(s.d); }); }
	}
	void addCon(size_t j) { std::string e = expression(r, s.con[j]); ok("constraint '" + e + "'", [&] { o.addConstraint(cbOf((int)j + 1), e, s.con[j].file); }); }
	void noRun(const std::string& what) {
		rv::count("unusable settings"); rv::distinct("unusable " + what); bool thrown = false; try { o.run(); } catch (const std::exception& e) { thrown = true; if (!*e.what()) bad("no-message", what); }
		if (!thrown) bad("unusable-settings-accepted", what); if (m.total || decoys) bad("function-called", what + ": " + std::to_string(m.total + decoys) + " function calls before the exception");
	}
	void unusable() {
		int k = r.in(0, 12); bool data = !s.doe; std::string w;
		switch (k) {
		case 0: setUp("dim", 0.1); noRun("no dimension"); break;
		case 1: setUp("box", 0); noRun("no box"); break;
		case 2: setUp("obj", 0.1); noRun("no objective"); break;
		case 3: setUp("N", 0.1); noRun("no budget"); break;
		case 4: setUp("", 0.1); o.setMaxNumberOfFunctionEvaluations(0); noRun("budget 0"); break;
		case 5: setUp("", 0.1); o.setDoEOn(0); noRun("DoE of 0 samples"); break;
		case 6: setUp("", 0.1); dimension(s.d + 1); noRun("dimension changed after the box"); break;
		case 7: setUp("", 0); { dv l = s.lb, u = s.ub; std::swap(l[0], u[0]); wrong("reversed bounds", [&] { o.setBoxConstraints(l.data(), u.data()); }); } noRun("box rejected at last"); break;
		case 8: if (s.con.empty()) { setUp("N", 0); noRun("no budget"); break; } setUp("", 0.1); trace += " constraint twice"; try { o.addConstraint(decoy, s.con[0].name + " < 1e9", "again.csv"); } catch (const std::exception&) { rv::count("repeated constraint rejected at once"); break; } noRun("repeated constraint name"); break;
		case 9: if (!data) { setUp("obj", 0); noRun("no objective"); break; } unlink(("work/" + s.file).c_str()); setUp("", 0.1); noRun("no training data"); break;
		case 10: if (!data) { setUp("N", 0); noRun("no budget"); break; } { rows_t q = s.rows; for (auto& z : q) if (r.chance(0.5) || &z == &q[0]) z.push_back(1); rv::spit("work/" + s.file, csvText(q, true)); } setUp("", 0.1); noRun("training data with other columns"); break;
		case 11: if (!data) { setUp("box", 0); noRun("no box"); break; } rv::spit("work/" + s.file, ""); setUp("", 0.1); noRun("empty training data"); break;
		default: setUp("", 0); rmdir("other"); { mkdir("gone", 0755); ok("directory gone", [&] { o.setCurrentWorkingDirectory(dir0 + "/gone"); }); rmdir("gone"); noRun("directory removed"); }
		}
	}
	void full() {
		setUp("", 0.15); std::string e; M = &m; try { o.run(); } catch (const std::exception& x) { e = x.what(); if (e.empty()) e = "?"; } if (!e.empty()) { bad("valid-study-fails", e); return; }
		m.endOfRun(); if (decoys) bad("overridden-function-called", std::to_string(decoys) + " calls"); char c[4096]; if (getcwd(c, sizeof c) && std::string(c) != dir0 + "/work") bad("directory", std::string("ends in ") + c);
		for (auto f : {"other", "x.csv", "decoy.csv", "elsewhere.csv", "again.csv"}) if (std::string(f) != "other" && rv::exists(f)) bad("unwanted-file", f);
		rv::count("studies"); rv::count("DoE samples", (long)m.doe[0].size());
		if (s.doe) { // strata of the sampling strategy
			bool all = true; for (int i = 0; i < s.d; i++) { std::set<int> k; for (auto& q : m.doe[0]) k.insert((int)std::floor((q.first[i] - s.lb[i]) / (s.ub[i] - s.lb[i]) * s.doe)); if ((int)k.size() != s.doe) all = false; }
			rv::count(s.lhs ? "Latin hypercubes" : all ? "stratified random designs" : "unstratified random designs"); if (s.lhs && !all) bad("not-a-latin-hypercube", std::to_string(s.doe) + " samples");
			if (!s.lhs && all && s.doe >= 7 && s.d >= 2) bad("random-strategy-stratified", std::to_string(s.doe) + " samples in " + std::to_string(s.d) + " dimensions");
		}
	}
};
template <class O> static void session(Rng& r, bool full) {
	Monitor m; m.only = "C03"; m.s = spec(r); M = &m; char c[4096]; if (!getcwd(c, sizeof c)) _exit(3); dir0 = c; mkdir("work", 0755); mkdir("other", 0755); rv::spit("file", "x");
	if (!m.s.doe) { rv::spit("work/" + m.s.file, csvText(m.s.rows, m.s.newline)); for (auto& q : m.s.con) rv::spit("work/" + q.file, csvText(q.rows, true)); }
	Session<O> q(m, r); if (full) { q.full(); rv::distinct(m.s.text()); } else q.unusable();
	rv::sample("{\"calls\": " + rv::jstr(q.trace.substr(0, 600)) + ", \"function_calls\": " + std::to_string(m.total) + "}");
}
// the optimizer class behind the interface: misuse is rejected, and a study with something missing calls nothing
static void optimizerSession(Rng& r) {
	using namespace Rodop; Monitor m; m.only = "C03"; m.s = spec(r); Spec& s = m.s; M = &m; s.api = false; s.doe = 0; s.newline = true; s.rows.clear(); for (auto& c : s.con) c.rows.clear();
	for (int k = r.in(4, 8); k > 0; k--) { dv q = randomPoint(r, s), z = q; z.push_back(s.obj(q.data())); s.rows.push_back(z); for (auto& c : s.con) { z = q; z.push_back(c.f(q.data())); c.rows.push_back(z); } }
	rv::spit(s.file, csvText(s.rows, true)); for (auto& c : s.con) rv::spit(c.file, csvText(c.rows, true));
	std::string trace; auto bad = [&](const std::string& k, const std::string& d) { m.bad("C03", k, d + "  after:" + trace); };
	auto none = [&](const std::string& what) { if (m.total || decoys) bad("function-called", what + " calls a function"); };
	auto wrong = [&](const std::string& what, const std::function<void()>& f) { trace += " !" + what; rv::count("misuses"); rv::count("misuses of the optimizer"); rv::distinct("optimizer misuse " + what); try { f(); bad("misuse-accepted", "optimizer: " + what); } catch (const std::exception& e) { if (!*e.what()) bad("no-message", what); } none(what); };
	auto ok = [&](const std::string& what, const std::function<void()>& f) { trace += " " + what; try { f(); rv::count("valid calls"); } catch (const std::exception& e) { bad("valid-call-rejected", "optimizer: " + what + ": " + e.what()); } none(what); };
	bool ctor = r.chance(0.3); if (r.chance(0.3)) wrong("constructor without name", [&] { Optimizer q("", (unsigned)s.d); }); if (r.chance(0.3)) wrong("constructor of dimension 0", [&] { Optimizer q("study", 0); });
	std::unique_ptr<Optimizer> o(ctor ? new Optimizer("study", (unsigned)s.d) : new Optimizer()); std::vector<std::string> todo = {"name", "box", "obj", "N", "cons", "data", "threads"}; if (!ctor) o->setDimension(s.d); o->setAPIUseOn();
	static const std::vector<std::string> skips = {"box", "obj", "N", "data", "boxes", "budget 0", "dimension", "no surrogate", "no definition", "functions", ""}; std::string skip = r.pick(skips);
	for (int i = (int)todo.size() - 1; i > 0; i--) std::swap(todo[i], todo[r.in(0, i)]);
	auto misuse = [&] { switch (r.in(0, 7)) {
		case 0: wrong("0 threads", [&] { o->setNumberOfThreads(0); }); break;
		case 1: wrong("training every 0 iterations", [&] { o->setHowOftenTrainModels(0); }); break;
		case 2: wrong("no design vector file", [&] { o->setFileNameDesignVector(""); }); break;
		case 3: wrong("blank design vector file", [&] { o->setFileNameDesignVector(std::string((size_t)r.in(1, 4), ' ')); }); break;
		case 4: { dv l = s.lb, u = s.ub; int i = r.in(0, s.d - 1), k = r.in(0, 2); if (k == 0) std::swap(l[i], u[i]); if (k == 1) l[i] = u[i]; if (k == 2) (r.chance(0.5) ? l[i] : u[i]) = NAN; wrong(k == 0 ? "reversed bounds" : k == 1 ? "equal bounds" : "nan bound", [&] { Bounds b(mv(l), mv(u)); o->setBoxConstraints(b); }); break; }
		case 5: wrong("null function", [&] { ObjectiveFunction f; f.setDimension(s.d); f.setFunctionPtr(nullptr); }); break;
		case 6: { std::string e = r.pick(std::vector<std::string>{"", "=", "<=", ">=", "lt", "!=", "<<", " <"}); wrong("inequality '" + e + "'", [&] { ConstraintFunction f; f.setDimension(s.d); f.setInequalityType(e); }); break; }
		default: wrong("bounds of two sizes", [&] { dv l = s.lb, u = s.ub; u.push_back(u[0] + 1); Bounds b(mv(l), mv(u)); o->setBoxConstraints(b); }); } };
	auto objective = [&](bool real) { ok(real ? "objective" : "other objective", [&] { ObjectiveFunction f; f.setDimension(s.d); f.setFunctionPtr(real ? cbOf(0) : decoy); ObjectiveFunctionDefinition d; d.name = "objf"; d.nameHighFidelityTrainingData = real ? s.file : "decoy.csv"; if (skip == "no surrogate" && real) d.modelHiFi = GRADIENT_ENHANCED; if (!(skip == "no definition" && real)) f.setParametersByDefinition(d); f.setNumberOfTrainingIterationsForSurrogateModel(10); o->addObjectFunction(f); }); };
	for (auto& t : todo) {
		while (r.chance(0.25)) misuse();
		if (t == skip) continue;
		if (t == "name") ok("name", [&] { o->setName("study"); });
		if (t == "box") { if (r.chance(0.2)) ok("other box", [&] { dv l(s.d, -1000), u(s.d, -900); Bounds b(mv(l), mv(u)); o->setBoxConstraints(b); }); ok("box", [&] { Bounds b(mv(s.lb), mv(s.ub)); o->setBoxConstraints(b); }); }
		if (t == "obj") { if (r.chance(0.3)) objective(false); objective(true); }
		if (t == "N") { if (r.chance(0.3)) o->setMaximumNumberOfIterations(s.N + 3); o->setMaximumNumberOfIterations(s.N); o->setMaximumNumberOfInnerIterations(40); }
		if (t == "threads") { if (r.chance(0.3)) o->setNumberOfThreads(7); o->setNumberOfThreads(r.in(1, 2)); o->setHowOftenTrainModels(100000); }
		if (t == "cons") for (size_t j = 0; j < s.con.size(); j++) ok("constraint", [&] { ConstraintFunction f; f.setDimension(s.d); ObjectiveFunctionDefinition d; d.name = s.con[j].name; d.nameHighFidelityTrainingData = s.con[j].file; f.setFunctionPtr(cbOf((int)j + 1)); f.setParametersByDefinition(d); f.setNumberOfTrainingIterationsForSurrogateModel(10); ConstraintDefinition cd; cd.constraintName = s.con[j].name; cd.inequalityType = s.con[j].gt ? ">" : "<"; cd.value = s.con[j].thr; cd.ID = (int)j; f.setConstraintDefinition(cd); o->addConstraint(f); });
	}
	if (skip == "N") o->setMaximumNumberOfInnerIterations(40);
	bool may = skip.empty();
	if (skip == "data") { std::vector<std::string> f = {s.file}; for (auto& c : s.con) f.push_back(c.file); unlink(r.pick(f).c_str()); }
	if (skip == "budget 0") o->setMaximumNumberOfIterations(0);
	if (skip == "dimension") o->setDimension(s.d + r.in(1, 2));
	if (skip == "functions") { wrong("box of another dimension", [&] { dv l(s.d + 1, 0), u(s.d + 1, 1); Bounds b(mv(l), mv(u)); o->setBoxConstraints(b); }); may = true; }
	if (skip == "boxes") { Bounds b(mv(s.lb), mv(s.ub)); dv l = s.lb, u = s.ub; std::swap(l[0], u[0]); wrong("reversed bounds at last", [&] { Bounds q(mv(l), mv(u)); o->setBoxConstraints(q); }); may = true; }
	std::string e; try { rv::Quiet q; o->performEfficientGlobalOptimization(); } catch (const std::exception& x) { e = x.what(); if (e.empty()) bad("no-message", "run"), e = "?"; }
	if (!may) { rv::count("unusable settings"); rv::count("unusable optimizers"); rv::distinct("unusable optimizer " + skip); if (e.empty()) bad("unusable-settings-accepted", "optimizer without " + skip); if (m.total || decoys) bad("function-called", "optimizer without " + skip + ": " + std::to_string(m.total + decoys) + " function calls before the exception"); if (rv::exists("optimizationHistory.csv") && skip != "data") bad("results-written", "optimizer without " + skip); return; }
	if (skip.empty() && !e.empty()) { bad("valid-study-fails", e); return; } if (e.empty()) { m.endOfRun(); rv::count("studies of the optimizer"); } if (decoys) bad("overridden-function-called", std::to_string(decoys) + " calls");
	rv::sample("{\"optimizer_calls\": " + rv::jstr(trace.substr(0, 600)) + ", \"function_calls\": " + std::to_string(m.total) + "}");
}
static void clean(const std::string& d) { DIR* p = opendir(d.c_str()); if (!p) return; while (auto* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string f = d + "/" + n; if (!lstat(f.c_str(), &st) && S_ISDIR(st.st_mode)) clean(f); else unlink(f.c_str()); } closedir(p); rmdir(d.c_str()); }
static void one(const rv::Args& a, int k, Rng& r) {
	std::string dir = "case" + std::to_string(k); mkdir(dir.c_str(), 0755); char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(dir.c_str())) _exit(3);
	bool full = k % a.geti("full", 6) == 0, wrapper = r.chance(0.4);
	bool optimizer = !full && r.chance(0.25);
	int rc = rv::forked([&] { if (optimizer) optimizerSession(r); else if (wrapper) session<Rodop::RobustDesignOptimizerAPI>(r, full); else session<Rodop::RobustDesignOptimizer>(r, full); }, 300);
	if (rc == -SIGALRM) rv::viol("*", "hang", "the study does not end within 300 s"); else if (rc < 0) rv::viol("*", "crash:signal-" + std::to_string(-rc), "dies of signal " + std::to_string(-rc)); else if (rc == 3 || rc == 4) _exit(rc); else if (rc) rv::viol("*", "crash:exit-" + std::to_string(rc), "ends with exit code " + std::to_string(rc));
	if (chdir(cwd)) _exit(3); clean(dir);
}
int main(int argc, char** argv) { return rv::runCases(argc, argv, one); }
