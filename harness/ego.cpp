// Optimization studies (R01-R06, R08-R10) and acquisition formulas (A01).
#include "study.hpp"
Monitor* M = nullptr;
// the user-defined constraints of the study (externalFunctions is the user's to supply)
double constraintFunction0(double* x) { return M->udf(0, x); }
double constraintFunction1(double* x) { return M->udf(1, x); }
double constraintFunction2(double* x) { return M->udf(2, x); }
double constraintFunction3(double* x) { return M->udf(3, x); }
static const char* P = "?";

static Spec randomSpec(Rng& r, const std::string& mode) {
	Spec s; s.d = mode == "R10" ? r.in(1, 3) : r.chance(0.35) ? 1 : r.in(1, 4); int box = r.in(0, 9);
	for (int i = 0; i < s.d; i++) { double w = box < 3 ? 1 : box < 7 ? r.logu(0.1, 50) : box == 7 ? r.logu(1e3, 1e5) : box == 8 ? r.logu(1e-3, 1e-1) : r.in(1, 20); double a = box < 3 ? 0 : box == 9 ? r.in(-10, 10) : r.uni(-3, 2) * w; if (mode == "R09" && box == 8) w = 1; s.lb.push_back(a); s.ub.push_back(a + w); }
	double pd = mode == "R02" ? 0.75 : mode == "R10" ? 0.15 : 0.2;
	for (int i = 0; i < s.d; i++) if (r.chance(pd)) { double w = s.ub[i] - s.lb[i], inc; switch (r.in(0, 5)) { case 0: inc = w / r.in(1, 12); break; case 1: inc = w / (r.in(1, 9) + r.uni(0.1, 0.9)); break; case 2: inc = w * r.uni(1.01, 3); break; case 3: inc = w; break; case 4: s.lb[i] = r.in(-10, 10); s.ub[i] = s.lb[i] + r.in(1, 12); inc = 1; break; default: inc = w * 0.1; } s.disc.push_back({i, inc}); }
	if (s.disc.size() > 1 && r.chance(0.5)) std::swap(s.disc[0], s.disc.back());
	s.obj = randomFn(r, s); if (mode == "R02" && r.chance(0.3)) { s.obj.kind = 1; for (auto& a : s.obj.a) a = r.chance(0.7) ? -1 : 1; s.obj.scale = std::fabs(s.obj.scale); }
	s.uni = r.chance(0.2); s.train = r.in(20, 120); s.N = r.in(1, mode == "R01" ? 9 : 6); s.inner = r.in(20, 200); s.threads = r.chance(mode == "R10" ? 0.3 : 0.5) ? 1 : r.in(2, 4); s.often = r.chance(0.4) ? 100000 : r.in(1, 3); s.order = r.in(0, 3);
	if (r.chance(0.3)) for (int i = 0; i < s.d; i++) s.names.push_back(std::string("par") + (char)('A' + i) + (r.chance(0.3) ? "_1" : ""));
	int n = r.in(4, 15), nc = mode == "R05" ? r.in(0, 3) : r.chance(0.45) ? 0 : r.in(1, 3); bool outside = r.chance(0.2);
	std::vector<dv> pts; for (int k = 0; k < n; k++) { dv x = randomPoint(r, s); if (outside && r.chance(0.25)) x[r.in(0, s.d - 1)] += (r.chance(0.5) ? 1.3 : -1.3) * (s.ub[0] - s.lb[0]); if (k && r.chance(0.05)) x[0] = r.chance(0.5) ? s.lb[0] : s.ub[0]; pts.push_back(x); }
	for (auto& x : pts) { dv q = x; q.push_back(s.obj(x.data())); s.rows.push_back(q); } s.newline = !r.chance(0.2);
	for (int j = 0; j < nc; j++) {
		Con c; c.f = randomFn(r, s); c.gt = r.chance(0.5); c.udf = mode == "R10" ? r.chance(0.4) : r.chance(0.25); c.name = std::string(j % 2 ? "con" : "g") + std::to_string(j + 1); c.train = r.in(20, 80); c.uni = r.chance(0.2); c.file = c.name + ".csv"; c.newline = !r.chance(0.2);
		dv at = r.chance(0.4) ? pts[r.in(0, n - 1)] : randomPoint(r, s); c.thr = c.f(at.data()); if (r.chance(0.15)) { double m = 3 * std::fabs(c.f.scale) * (s.d + 1) * 3; c.thr += (r.chance(0.5) ? 1 : -1) * m * (c.gt ? 1 : 1); } if (mode == "R09") c.thr += 1e-3 * std::fabs(c.f.scale) * r.uni(0.5, 1);
		if (!c.udf) { bool miss = r.chance(0.4); for (auto& x : pts) if (!(miss && r.chance(0.3))) { dv q = x; q.push_back(c.f(x.data())); c.rows.push_back(q); } int extra = r.chance(0.3) ? r.in(1, 4) : 0; while (extra-- > 0 || c.rows.size() < 3) { dv x = randomPoint(r, s); dv q = x; q.push_back(c.f(x.data())); c.rows.push_back(q); } if (r.chance(0.7)) for (int i = (int)c.rows.size() - 1; i > 0; i--) std::swap(c.rows[i], c.rows[r.in(0, i)]); }
		s.con.push_back(c);
	}
	if (mode == "R10") { bool any = false; for (auto& c : s.con) any |= c.udf; if (!any) { Con c; c.f = randomFn(r, s); c.udf = true; c.name = "watched"; c.gt = false; c.thr = r.chance(0.5) ? 1e9 : c.f(randomPoint(r, s).data()); if (s.con.size() == 3) s.con.pop_back(); s.con.push_back(c); } }
	if (mode == "R10" && r.chance(0.15)) { s.con.clear(); s.N = r.in(5, 6); s.inner = r.in(150, 220); }
	return s;
}

static void setup(Rodop::Optimizer& o, const Spec& s) {
	using namespace Rodop;
	o.setName("study"); o.setDimension(s.d); o.setAPIUseOn(); Bounds b(mv(s.lb), mv(s.ub));
	auto box = [&] { o.setBoxConstraints(b); };
	auto obj = [&] { ObjectiveFunction f; f.setDimension(s.d); f.setFunctionPtr(cbOf(0)); ObjectiveFunctionDefinition def; def.name = "objf"; def.nameHighFidelityTrainingData = s.file; def.modelHiFi = s.uni ? UNIVERSAL_KRIGING : ORDINARY_KRIGING; f.setParametersByDefinition(def); f.setNumberOfTrainingIterationsForSurrogateModel(s.train); o.addObjectFunction(f); };
	auto con = [&] { for (size_t j = 0; j < s.con.size(); j++) { const Con& c = s.con[j]; ConstraintFunction f; f.setDimension(s.d); ObjectiveFunctionDefinition def; def.name = c.name; if (!c.udf) { def.nameHighFidelityTrainingData = c.file; f.setFunctionPtr(cbOf((int)j + 1)); } def.modelHiFi = c.uni ? UNIVERSAL_KRIGING : ORDINARY_KRIGING; f.setParametersByDefinition(def); f.setNumberOfTrainingIterationsForSurrogateModel(c.train); ConstraintDefinition cd; cd.constraintName = c.name; cd.inequalityType = c.gt ? ">" : "<"; cd.value = c.thr; cd.ID = (int)j; f.setConstraintDefinition(cd); if (c.udf) f.setUseExplicitFunctionOn(); o.addConstraint(f); } };
	switch (s.order) { case 0: box(); obj(); con(); break; case 1: obj(); con(); box(); break; case 2: obj(); box(); con(); break; default: con(); obj(); box(); }
	for (auto& q : s.disc) o.setParameterToDiscrete(q.first, q.second);
	o.setMaximumNumberOfIterations(s.N); o.setMaximumNumberOfInnerIterations(s.inner); o.setNumberOfThreads(s.threads); o.setHowOftenTrainModels(s.often); if (!s.names.empty()) o.setParameterNames(s.names);
}
static void writeData(const Spec& s) { rv::spit(s.file, csvText(s.rows, s.newline)); for (auto& c : s.con) if (!c.udf) rv::spit(c.file, csvText(c.rows, c.newline)); }

// returns the message of the exception that ended the run, or ""
static std::string run(Monitor& m) {
	M = &m;
	try {
		if (!m.s.api) { Rodop::Optimizer o; m.opt = &o; setup(o, m.s); bool show = m.s.train % 9 == 0; if (show) { rv::Quiet q; o.print(); o.printConstraints(); o.printSettingsToLogFile(); } { rv::Quiet q; o.performEfficientGlobalOptimization(); } if (show) { rv::Quiet q; o.print(); o.printConstraints(); o.printHistory(); rv::count("printed studies"); } if (m.oracle && m.nanFn < 0) m.endOfRun(); m.opt = nullptr; }
		else {
			Spec& s = m.s; Rodop::RobustDesignOptimizer o; char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) _exit(3); o.setName("study"); o.setDimension(s.d); o.setCurrentWorkingDirectory(cwd); o.setBoxConstraints(s.lb.data(), s.ub.data()); o.setObjectiveFunction(cbOf(0), "objf", s.file);
			for (size_t j = 0; j < s.con.size(); j++) o.addConstraint(cbOf((int)j + 1), s.con[j].name + (s.con[j].gt ? " > " : " < ") + S(s.con[j].thr), s.con[j].file);
			if (s.doe) { o.setDoEOn(s.doe); o.setDoEStrategy(s.lhs ? "LHS" : "random"); } o.setMaxNumberOfFunctionEvaluations(s.N); o.run(); if (m.oracle && m.nanFn < 0) m.endOfRun();
		}
	} catch (const std::exception& e) { m.opt = nullptr; return std::string(e.what()).empty() ? "?" : e.what(); }
	catch (int) { m.opt = nullptr; return "int"; }
	return "";
}
static Spec apiSpec(Rng& r) { Spec s = randomSpec(r, "api"); s.api = true; s.d = 1; s.lb.resize(1); s.ub.resize(1); s.disc.clear(); s.names.clear(); s.uni = false; s.often = 100000; s.threads = 1; s.N = r.in(1, 2); s.obj = randomFn(r, s); s.con.clear(); s.rows.clear(); s.newline = true; s.doe = r.in(4, 8); s.lhs = r.chance(0.5); int nc = r.chance(0.3) ? 0 : 1; for (int j = 0; j < nc; j++) { Con c; c.f = randomFn(r, s); c.gt = r.chance(0.5); c.name = "g" + std::to_string(j); c.file = c.name + ".csv"; c.thr = c.f(randomPoint(r, s).data()); s.con.push_back(c); } return s; }

static void plainRun(Rng& r, const std::string& mode, bool api) {
	Monitor m; m.s = api ? apiSpec(r) : randomSpec(r, mode == "M02" && r.chance(0.6) ? "R10" : mode); bool races = mode == "M02"; if (races) { m.s.threads = r.in(2, 6); m.only = "M02"; m.s.inner = r.in(20, 80); m.s.train = r.in(20, 60); m.s.N = r.in(1, 3); if (rv_omp_seed) rv_omp_seed(r.next()); } m.watchSearch = (mode == "R10" || races && r.chance(0.25)) && !api; m.watchRefinement = mode == "R02" && !api; m.delays = (mode == "R10" || races) && m.s.threads > 1 && r.chance(0.5);
	if (m.watchSearch && !races && r.chance(0.08)) { // a long study whose best sample is never improved, or improved steadily
		Spec& s = m.s; m.lightSearch = true; s.N = r.chance(0.5) ? r.in(17, 24) : r.in(33, 40); s.inner = r.in(100, 150); s.train = r.in(10, 20); s.often = r.in(6, 40); if (s.d > 2) { s.d = 1; s = randomSpec(r, "R10"); while (s.d > 2 || s.con.size() > 1) s = randomSpec(r, "R10"); s.N = r.in(17, 40); s.inner = r.in(100, 150); s.train = r.in(10, 20); s.often = r.in(6, 40); }
		if (r.chance(0.25)) { s.d = 9; while (s.d > 1 || s.con.size() > 1 || s.uni || (!s.con.empty() && !s.con[0].udf)) s = randomSpec(r, "R10"); s.threads = 1; s.N = r.in(126, 145); s.inner = r.in(92, 110); s.train = r.in(10, 20); s.often = s.N; rv::count("studies down to the smallest trust region"); }
		double lo = INFINITY, hi = -INFINITY; for (auto& q : s.rows) lo = std::min(lo, q[s.d]), hi = std::max(hi, q[s.d]); for (int t = 0; t < 200; t++) { double v = s.obj(randomPoint(r, s).data()); lo = std::min(lo, v); hi = std::max(hi, v); }
		if (r.chance(0.8)) { dv& q = s.rows[r.in(0, (int)s.rows.size() - 1)]; q[s.d] = lo - r.uni(0.05, 0.5) * (hi - lo + 1e-3); if (r.chance(0.5)) { q[0] = r.chance(0.5) ? s.lb[0] : s.ub[0]; } for (auto& c : s.con) if (c.udf) { double v = c.f(q.data()); c.thr = v + (c.gt ? -1 : 1) * (0.5 + r.u()) * std::fabs(c.f.scale); } rv::count("long studies"); } }
	if (!m.s.doe) writeData(m.s);
	std::string e = run(m); rv::threadCounts(); rv::count(api ? "API studies" : "studies"); rv::distinct("d" + std::to_string(m.s.d) + " con" + std::to_string(m.s.con.size()) + " N" + std::to_string(m.s.N) + " th" + std::to_string(m.s.threads) + " disc" + std::to_string(m.s.disc.size()) + " rows" + std::to_string(m.s.rows.size()) + (api ? " api" : "") + (m.s.uni ? " uni" : ""));
	if (!e.empty()) { m.bad("R01", "run-fails", "a valid study ends with: " + e); }
	rv::sample("{\"study\": " + rv::jstr(m.s.text()) + ", \"calls\": " + std::to_string(m.total) + ", \"history_rows\": " + std::to_string(m.H.size()) + "}");
}
static void nanRun(Rng& r, bool api) {
	Monitor m; m.s = api ? apiSpec(r) : randomSpec(r, "R08"); Spec& s = m.s; if (!s.doe) writeData(s); m.nanFn = r.in(0, s.fns() - 1); m.negNan = r.chance(0.3); m.nanCall = r.in(0, s.N - 1 + s.doe);
	if (s.doe && m.nanFn && !r.chance(0.5)) m.nanCall = r.in(0, s.doe - 1);
	if (s.pointer(m.nanFn) && r.chance(0.3)) { m.throws = r.in(1, 2); rv::count("studies with throwing functions"); }
	std::string what = "function " + std::to_string(m.nanFn) + (m.throws ? " throws" : " returns NaN") + " at call " + std::to_string(m.nanCall) + ": "; m.tag = what; std::string e = run(m); rv::count(api ? "API studies with NaN" : "studies with NaN"); rv::distinct(std::string(s.pointer(m.nanFn) ? "p" : "u") + std::to_string(m.nanFn) + " call" + std::to_string(m.nanCall) + (api ? " api" : ""));
	if (!m.nanDone) { if (s.pointer(m.nanFn)) m.bad("R01", "budget-not-used", "the call never happened: " + e); else rv::count("NaN not reached"); return; }
	if (e.empty()) m.bad("R08", "nan-accepted", "the run ends normally");
	// nothing of the failed evaluation may be recorded, everything before stays
	if (m.started) { m.curOpen = false; bool ok; for (int k = 0; k < s.fns(); k++) if (s.pointer(k)) { std::string t = rv::slurp(m.fileOf(k), &ok); if (t != m.fileText[k]) m.bad("R08", "training-data-changed", "training file of function " + std::to_string(k) + " is not as before the failed evaluation"); if (hasNan(t)) m.bad("R08", "nan-in-training-data", "function " + std::to_string(k)); } m.checkState("after the failed evaluation", true); rv::Csv c = rv::readCsv("optimizationHistory.csv", true); if (!c.ok || c.rows.size() != m.H.size()) m.bad("R08", "history-changed", "history has " + std::to_string(c.rows.size()) + " rows instead of " + std::to_string(m.H.size())); rv::count("states after NaN"); }
	else for (int k = 0; k < s.fns(); k++) { bool ok; std::string t = rv::slurp(m.fileOf(k), &ok); if (hasNan(t)) m.bad("R08", "nan-in-training-data", "DoE file of function " + std::to_string(k)); if (ok) { rv::Csv c = rv::readCsv(m.fileOf(k), false); size_t want = 0; for (auto& q : m.doe[k]) if (!std::isnan(q.second)) want++; if (!c.ok || c.rows.size() != want) m.bad("R08", "doe-rows", "function " + std::to_string(k) + " has " + std::to_string(c.rows.size()) + " rows for " + std::to_string(want) + " values"); rv::count("DoE states after NaN"); } }
}

static void killRun(Rng& r, bool api, bool discardCase) {
	Spec s = api ? apiSpec(r) : randomSpec(r, "R09");
	if (discardCase) { // a steep objective and a flat constraint on a tiny box: the constraint's sample counts as repeated
		s = Spec(); s.d = 1; s.lb = {0}; s.ub = {5e-5}; s.obj.kind = 1; s.obj.lo = {0}; s.obj.w = {5e-5}; s.obj.c = {0}; s.obj.a = {-10}; s.N = 4; s.train = 30; Con c; c.f = s.obj; c.f.a = {1e-6}; c.f.off = 1; c.thr = 2; c.name = "g1"; c.file = "g1.csv"; for (double t : {0.0, 1e-5, 2e-5, 3e-5}) { s.rows.push_back({t, s.obj(&t)}); c.rows.push_back({t, c.f(&t)}); } s.con.push_back(c); }
	if (!s.doe) writeData(s);
	SharedLog* log = (SharedLog*)mmap(0, sizeof(SharedLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (log == MAP_FAILED) _exit(3); log->n = 0;
	int fn = r.in(0, s.fns() - 1); while (!s.pointer(fn)) fn = r.in(0, s.fns() - 1); int call = r.in(0, s.N - 1 + s.doe); if (discardCase) { fn = 0; call = 3; }
	fflush(nullptr); pid_t p = fork(); if (p < 0) _exit(3);
	if (!p) { Monitor m; m.s = s; m.oracle = false; m.log = log; m.killFn = fn; m.killCall = call; alarm(100); std::string e = run(m); _exit(e.empty() ? 50 : 51); }
	int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) _exit(3);
	Monitor v; v.s = s; v.tag = "killed in call " + std::to_string(call) + " of function " + std::to_string(fn) + ": ";
	if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { if (WIFEXITED(st) && (WEXITSTATUS(st) >= 97 && WEXITSTATUS(st) <= 99)) _exit(WEXITSTATUS(st)); v.bad("R01", "budget-not-used", "the call never happened, status " + std::to_string(st)); return; }
	rv::count(api ? "API runs killed" : "runs killed"); rv::distinct("killed " + std::to_string(fn) + "/" + std::to_string(call) + " con" + std::to_string(s.con.size()) + " d" + std::to_string(s.d) + (api ? " api" : ""));
	// replay the log into a monitor without looking at the disk on the way
	std::vector<Event> ev(log->e, log->e + log->n); size_t i = 0, n = ev.size();
	if (s.doe) { for (; i < n; i++) { Event& e = ev[i]; if ((int)v.doe[e.fn].size() >= s.doe) break; if (!e.done) break; v.doe[e.fn].push_back({dv(e.x, e.x + s.d), e.v}); }
		bool allDoe = true; for (int k = 0; k < s.fns(); k++) allDoe &= (int)v.doe[k].size() == s.doe;
		if (!allDoe) { for (int k = 0; k < s.fns(); k++) { if (v.doe[k].empty()) continue; rv::Csv c = rv::readCsv(v.fileOf(k), false); if (!c.ok || !c.endsWithNewline) { v.bad("R09", "doe-file", c.error); continue; } (k ? v.s.con[k - 1].rows : v.s.rows) = c.rows; v.checkDoe(k, true); } rv::count("runs killed in the DoE"); return; } 
		for (int k = 0; k < s.fns(); k++) { auto& q = k ? v.s.con[k - 1].rows : v.s.rows; rv::Csv c = rv::readCsv(v.fileOf(k), false); c.rows.resize(std::min<size_t>(c.rows.size(), s.doe)); q = c.rows; std::string t; for (auto& l : c.lines) { if (t.size() && (size_t)std::count(t.begin(), t.end(), '\n') == (size_t)s.doe) break; t += l + "\n"; } v.checkDoe(k, true); v.s.newline = true; v.fileText.resize(s.fns()); v.fileText[k] = t; }
		auto ft = v.fileText; v.s.doe = 0; v.begin(); v.fileText = ft; }
	else v.begin();
	size_t first = v.H.size();
	for (; i < n; i++) { Event& e = ev[i]; if (!e.done) break; if (v.curOpen && v.curDone[e.fn]) break; if (!v.curOpen) { v.curOpen = true; v.cur = dv(e.x, e.x + s.d); v.curDone.assign(s.fns(), 0); v.curVal.assign(s.fns(), 0); } v.curDone[e.fn] = 1; v.curVal[e.fn] = e.v; if (v.complete()) { 
			// several evaluations may be on disk: judge line by line
			v.curOpen = false; HRow h = v.row(); if (h.feas) { if (!v.hasRef) { bool und = false; for (auto& q : v.H) und |= q.feas < 0; h.tiny = !und; if (und) h.imp = NAN; v.hasRef = true; v.ref = h.f; } else if (h.f < v.ref) { h.imp = v.ref - h.f; for (auto& q : v.H) if (q.feas < 0 && q.f < v.ref) h.imp = NAN; } }
			for (int k = 0; k < s.fns(); k++) if (s.pointer(k)) { std::string full = rv::slurp(v.fileOf(k)); size_t from = v.fileText[k].size(); dv rr = h.x; rr.push_back(k ? h.c[k - 1] : h.f); double best = INFINITY; for (auto& q : v.fileRows[k]) { double mm = 0; for (size_t z = 0; z < rr.size(); z++) mm = std::max(mm, std::fabs(q[z] - rr[z])); best = std::min(best, mm); }
				if (full.compare(0, from, v.fileText[k])) { v.bad("R09", "earlier-rows-changed", "function " + std::to_string(k)); continue; }
				std::string rest = full.substr(from); bool lead = from && v.fileText[k].back() != '\n'; if (lead && !rest.empty() && rest[0] == '\n') rest = rest.substr(1), from++;
				dv got; size_t nl = rest.find('\n'); if (nl != std::string::npos) { std::stringstream ss(rest.substr(0, nl)); std::string cell; while (std::getline(ss, cell, ',')) got.push_back(strtod(cell.c_str(), 0)); }
				bool match = got.size() == rr.size(); for (size_t z = 0; match && z < rr.size(); z++) match = std::fabs(got[z] - rr[z]) <= 5.1e-11 + 3e-16 * std::fabs(rr[z]);
				h.discarded[k] = !match; if (match) { v.fileText[k] = full.substr(0, from + nl + 1); v.fileRows[k].push_back(got); rv::count("samples found on disk"); } else if (best > 1e-4 * (1 + 1e-7)) v.bad("R09", "sample-not-on-disk", "function " + std::to_string(k) + " at " + rv::fmt(rr)); else rv::count("repeated samples"); }
			v.H.push_back(h); } }
	v.curOpen = false; rv::count("completed evaluations before the kill", (long)(v.H.size() - first)); v.checkState("after the kill", true);
	// continue on these files
	Monitor m; m.s = s; m.s.doe = 0; m.s.api = false; m.s.N = r.in(1, 3); m.tag = v.tag + "continued: "; bool ok = true;
	for (int k = 0; k < s.fns(); k++) if (s.pointer(k)) { std::string t = rv::slurp(v.fileOf(k)); if (t.empty() || (v.H.size() > first && !v.H.back().discarded[k] && t.back() != '\n')) v.bad("R09", "training-file-incomplete", "function " + std::to_string(k)); rv::Csv c = rv::readCsv(v.fileOf(k), false); if (!c.ok) { v.bad("R09", "training-file-malformed", c.error); ok = false; } (k ? m.s.con[k - 1].rows : m.s.rows) = c.rows; (k ? m.s.con[k - 1].newline : m.s.newline) = t.back() == '\n'; if (csvText(c.rows, true).empty()) ok = false; }
	if (!ok) return;
	// the expected text is the one on disk
	struct Cont : Monitor {}; M = &m; std::vector<std::string> disk; for (int k = 0; k < s.fns(); k++) disk.push_back(s.pointer(k) ? rv::slurp(v.fileOf(k)) : ""); m.oracle = true; m.begin(); m.fileText = disk;
	std::vector<HRow> initial = m.H; std::string e = run(m); if (!e.empty()) { m.bad("R09", "cannot-continue", e); return; } rv::count("studies continued");
	// the initial history of the continued run against the completed history of the killed one
	std::vector<HRow*> kept; for (size_t q = 0; q < v.H.size(); q++) if (q < first || !v.H[q].discarded[0]) kept.push_back(&v.H[q]);
	rv::Csv c = rv::readCsv("optimizationHistory.csv", true); if (!c.ok || c.rows.size() < kept.size() || kept.size() != initial.size()) { m.bad("R09", "restart-history-rows", std::to_string(initial.size()) + " samples of " + std::to_string(kept.size())); return; }
	auto near = [](double a, double b) { return std::fabs(a - b) <= 1.01e-6 + 1e-14 * std::fabs(b); };
	for (size_t q = 0; q < kept.size(); q++) { const HRow& h = *kept[q]; const dv& g = c.rows[q]; bool lost = false; for (size_t k = 0; k < s.con.size(); k++) if (!s.con[k].udf && !h.discarded.empty() && h.discarded[k + 1]) lost = true; std::string key = lost ? "restart-constraint-discarded" : "restart-history-row"; rv::count("restored rows compared"); bool good = near(g[s.d], h.f); for (int z = 0; z < s.d; z++) good &= near(g[z], h.x[z]); bool close = false;
		for (size_t k = 0; k < s.con.size(); k++) { if (h.known[k] == 1) { good &= near(g[s.d + 1 + k], h.c[k]); if (std::fabs(h.c[k] - s.con[k].thr) < 1e-9 * (1 + std::fabs(s.con[k].thr))) close = true; } }
		if (!close && h.feas >= 0 && g.back() != h.feas) good = false;
		if (!good) m.bad("R09", key, "row " + std::to_string(q) + " is " + rv::fmt(g) + ", before " + rv::fmt(h.x) + " objective " + S(h.f) + " constraints " + rv::fmt(h.c) + " feasible " + std::to_string(h.feas)); }
}

// ---------------------------------------------------------------- A01
static ld Phi(ld z) { return 0.5L * erfcl(-z / sqrtl(2)); }
static void a01(Rng& r) {
	using namespace Rodop; Spec s = randomSpec(r, "R05"); s.train = 30; writeData(s); Monitor m; m.s = s; m.quietUdf = true; M = &m;
	ObjectiveFunction f; f.setDimension(s.d); ObjectiveFunctionDefinition def; def.name = "objf"; def.nameHighFidelityTrainingData = s.file; def.modelHiFi = s.uni ? UNIVERSAL_KRIGING : ORDINARY_KRIGING; f.setParametersByDefinition(def); f.setNumberOfTrainingIterationsForSurrogateModel(s.train); f.setParameterBounds(Bounds(mv(s.lb), mv(s.ub))); f.initializeSurrogate(); if (r.chance(0.7)) f.trainSurrogate();
	double lo = INFINITY, hi = -INFINITY; for (auto& q : s.rows) { lo = std::min(lo, q[s.d]); hi = std::max(hi, q[s.d]); } double range = std::max(hi - lo, 1e-9);
	Optimizer o; setup(o, s); auto bad = [&](const std::string& k, const std::string& d) { m.bad("A01", k, d); };
	for (int t = 0; t < 60; t++) {
		dv u(s.d); for (auto& z : u) z = r.u() / s.d; bool at = false; if (r.chance(0.15)) { const dv& q = s.rows[r.in(0, (int)s.rows.size() - 1)]; for (int i = 0; i < s.d; i++) u[i] = (q[i] - s.lb[i]) / (s.ub[i] - s.lb[i]) / s.d; at = true; }
		double fac = r.chance(0.4) ? 1 : r.logu(1, 100), best = r.chance(0.1) ? 1e15 : r.chance(0.6) ? lo : r.uni(lo - range, hi + range); f.setSigmaFactor(fac); f.setFeasibleMinimum(best);
		DesignForBayesianOptimization q(mv(u), (int)s.con.size()); f.calculateExpectedImprovement(q); auto pr = f.interpolateWithVariance(mv(u)); double mu = pr.first, sg = pr.second;
		rv::count("expected improvements"); double a = q.valueAcquisitionFunction; ld e = sg * fac <= 1e-13 ? 0 : Monitor::ei(best, mu, (ld)sg * fac), tol = 1e-9L * fabsl(e) + 2e-15L * 8 * (std::fabs(best - mu) + sg * fac) + 1e-300L;
		if (!(std::fabs(mu - q.objectiveFunctionValue) == 0)) bad("prediction", S(mu) + " vs " + S(q.objectiveFunctionValue));
		if (std::isnan(a) || std::isinf(a)) bad("improvement-not-finite", S(a)); else if (sg * fac < 0.9e-13 || sg * fac > 1.1e-13) { if (fabsl(a - e) > tol) bad("expected-improvement", S(a) + " instead of " + S((double)e) + " for m=" + S(best) + " f=" + S(mu) + " s=" + S(sg) + " factor=" + S(fac)); }
		if (a < -1e-12 * (std::fabs(best - mu) + sg * fac)) bad("improvement-negative", S(a)); if (sg * fac <= 1e-13) rv::count("vanishing deviations");
		DesignForBayesianOptimization w(mv(u), (int)s.con.size()); f.calculateProbabilityOfImprovement(w); double pi = w.valueAcquisitionFunction; ld pe = sg > 0 ? Phi(((ld)best - mu) / sg) : (best > mu ? 1 : best < mu ? 0 : -1); rv::count("probabilities of improvement");
		if (!(pi >= 0 && pi <= 1)) bad("probability-range", S(pi)); else if (pe >= 0 && fabsl(pi - pe) > 1e-12L && !(sg < 1e-10 && fabsl(best - mu) < 1e-8 * (1 + fabs(mu)))) bad("probability-of-improvement", S(pi) + " instead of " + S((double)pe) + " m=" + S(best) + " f=" + S(mu) + " s=" + S(sg)); (void)at;
		// probabilities as functions of value, mean and deviation
		double mean = r.uni(-3, 3) * r.logu(1e-3, 1e3), sd = r.chance(0.2) ? 0 : r.chance(0.1) ? r.logu(1e-16, 1e-10) : r.logu(1e-6, 1e3), val = r.chance(0.1) ? mean : mean + r.gauss() * (sd > 0 ? sd * r.logu(0.1, 20) : 1);
		double pl = o.calculateProbabilityLessThanAValue(val, mean, sd), pg = o.calculateProbabilityGreaterThanAValue(val, mean, sd); ld el = sd > 0 ? Phi(((ld)val - mean) / sd) : val < mean ? 0 : 1; rv::count("probabilities");
		if (!(pl >= 0 && pl <= 1 && pg >= 0 && pg <= 1)) bad("probability-range", S(pl) + " " + S(pg)); else if (sd == 0 ? val != mean && fabsl(pl - el) > 1e-12L : (sd > 2e-12 || fabs(val - mean) > 1e-10) && fabsl(pl - el) > 1e-12L) bad("probability-less", S(pl) + " instead of " + S((double)el) + " value " + S(val) + " mean " + S(mean) + " deviation " + S(sd)); if (std::fabs(pl + pg - 1) > 1e-12) bad("probabilities-not-complementary", S(pl) + " " + S(pg));
		bool neg = false; try { o.calculateProbabilityLessThanAValue(val, mean, -1e-3 - sd); } catch (const std::exception&) { neg = true; } if (!neg) bad("negative-deviation-accepted", "");
		DesignForBayesianOptimization g((int)s.d); g.objectiveFunctionValue = mean; g.sigma = sd; if (sd > 0) { double l = g.calculateProbalityThatTheEstimateIsLessThanAValue(val), h = g.calculateProbalityThatTheEstimateIsGreaterThanAValue(val); ld z = el; if (!(fabsl(l - z) <= 1e-12L) || !(fabsl(h - (1 - z)) <= 1e-12L)) bad("estimate-probability", S(l) + " " + S(h) + " instead of " + S((double)z) + " value " + S(val) + " mean " + S(mean) + " deviation " + S(sd)); rv::count("estimate probabilities"); }
		// constraints
		if (!s.con.empty()) { DesignForBayesianOptimization c(mv(u), (int)s.con.size()); ld prod = 1; dv pe2; for (size_t j = 0; j < s.con.size(); j++) { double sc = r.chance(0.3) ? 0 : r.logu(1e-3, 10), cv = s.con[j].thr + r.gauss() * (sc > 0 ? sc * 2 : 1); c.constraintValues(j) = cv; c.constraintSigmas(j) = sc; ld pj = sc > 0 ? Phi((s.con[j].gt ? 1 : -1) * ((ld)cv - s.con[j].thr) / sc) : s.con[j].gt ? (cv > s.con[j].thr ? 1 : 0) : (cv < s.con[j].thr ? 1 : 0); pe2.push_back((double)pj); prod *= pj; }
			o.calculateFeasibilityProbabilities(c); double before = c.valueAcquisitionFunction = r.uni(0, 5); for (size_t j = 0; j < s.con.size(); j++) { double p = c.constraintFeasibilityProbabilities.get(j); rv::count("feasibility probabilities"); if (!(p >= 0 && p <= 1) || std::fabs(p - pe2[j]) > 1e-12 * (1 + 0) + 1e-10 * 0) bad("feasibility-probability", "constraint " + std::to_string(j) + ": " + S(p) + " instead of " + S(pe2[j])); } c.updateAcqusitionFunctionAccordingToConstraints(); if (!(fabsl(c.valueAcquisitionFunction - before * prod) <= 1e-11L)) bad("penalised-acquisition", S(c.valueAcquisitionFunction) + " instead of " + S((double)(before * prod))); }
	}
	rv::distinct("A01 d" + std::to_string(s.d) + " con" + std::to_string(s.con.size()) + " rows" + std::to_string(s.rows.size()) + (s.uni ? " uni" : "")); rv::count("models");
}

static void one(const rv::Args& a, int k, Rng& r) {
	P = a.mode.c_str(); std::string dir = "case" + std::to_string(k); mkdir(dir.c_str(), 0755); char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(dir.c_str())) _exit(3);
	int apiEvery = a.geti("api", 0); bool api = apiEvery && k % apiEvery == 3 % apiEvery;
	int rc = rv::forked([&] { if (a.mode == "A01") a01(r); else if (a.mode == "R08") nanRun(r, api); else if (a.mode == "R09") killRun(r, api, k == 0); else plainRun(r, a.mode, api); }, 150);
	if (rc == -SIGALRM) rv::viol("*", "hang", "the study does not end within 150 s"); else if (rc < 0) rv::viol("*", "crash:signal-" + std::to_string(-rc), "the study dies of signal " + std::to_string(-rc)); else if (rc == 3 || rc == 4) _exit(rc); else if (rc) rv::viol("*", "crash:exit-" + std::to_string(rc), "the study ends with exit code " + std::to_string(rc));
	if (chdir(cwd)) _exit(3); DIR* d = opendir(dir.c_str()); if (d) { while (auto* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((dir + "/" + n).c_str()); } closedir(d); } rmdir(dir.c_str());
}
int main(int argc, char** argv) { return rv::runCases(argc, argv, one); }
