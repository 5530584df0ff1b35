// Complete optimization studies with in-process functions: specification, trace monitor and oracles (R01-R06, R08-R10).
#ifndef STUDY_HPP
#define STUDY_HPP
#include "rv.hpp"
#include "fns.hpp"
#include "kref.hpp"
#include "Optimizers/INCLUDE/optimization.hpp"
#include "API/INCLUDE/rodeo.h"
#include <mutex>
#include <atomic>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
using rv::dv; using rv::ld; using rv::Rng;
typedef std::vector<dv> rows_t;
static inline std::string S(double x) { return rv::fmt(x); }
static inline dv sv(const Rodop::vec& v) { dv r(v.getSize()); for (unsigned i = 0; i < v.getSize(); i++) r[i] = v.get(i); return r; }
static inline Rodop::vec mv(const dv& r) { Rodop::vec v((unsigned)r.size()); for (unsigned i = 0; i < r.size(); i++) v.set(i, r[i]); return v; }

struct Con { Fn f; bool gt = false; double thr = 0; bool udf = false; std::string name; int train = 50; bool uni = false; std::string file; rows_t rows; bool newline = true; };
struct Spec {
	int d = 1; dv lb, ub; std::vector<std::pair<int, double>> disc; Fn obj; bool uni = false; int train = 50; std::string file = "obj.csv"; rows_t rows; bool newline = true;
	std::vector<Con> con; int N = 3, inner = 100, threads = 1, often = 100000; std::vector<std::string> names;
	bool api = false; int doe = 0; bool lhs = false; unsigned order = 0;
	int fns() const { return 1 + (int)con.size(); }
	bool pointer(int k) const { return k == 0 || !con[k - 1].udf; }
	const Fn& fn(int k) const { return k ? con[k - 1].f : obj; }
	std::string text() const { std::ostringstream o; o << "d=" << d << " N=" << N << " rows=" << rows.size() << " doe=" << doe << " inner=" << inner << " threads=" << threads << " often=" << often << " discrete=" << disc.size() << " cons="; for (auto& c : con) o << (c.udf ? "u" : "p") << (c.gt ? ">" : "<"); o << " kind=" << obj.kind << " uni=" << uni << " api=" << api; return o.str(); }
};

static inline Fn randomFn(Rng& r, const Spec& s) {
	Fn f; f.kind = r.in(0, 5); f.lo = s.lb; for (int i = 0; i < s.d; i++) { f.w.push_back(s.ub[i] - s.lb[i]); f.c.push_back(r.uni(-0.2, 1.2)); f.a.push_back(r.uni(0.2, 2) * (r.chance(0.3) ? -1 : 1)); }
	f.scale = r.chance(0.6) ? 1 : r.logu(1e-2, 1e3); if (r.chance(0.2)) f.scale = -f.scale; f.off = r.chance(0.5) ? 0 : r.uni(-20, 20) * std::fabs(f.scale); return f;
}
static inline dv randomPoint(Rng& r, const Spec& s) { dv x(s.d); for (int i = 0; i < s.d; i++) x[i] = s.lb[i] + r.u() * (s.ub[i] - s.lb[i]); for (auto& q : s.disc) if (r.chance(0.3)) { long n = (long)std::floor((s.ub[q.first] - s.lb[q.first]) / q.second + 1e-9); x[q.first] = std::min(s.ub[q.first], s.lb[q.first] + r.in(0, (int)n) * q.second); } return x; }
static inline std::string csvText(const rows_t& r, bool newline) { std::ostringstream o; o << std::setprecision(17); for (size_t k = 0; k < r.size(); k++) { for (size_t i = 0; i < r[k].size(); i++) o << (i ? "," : "") << r[k][i]; if (newline || k + 1 < r.size()) o << "\n"; } return o.str(); }
static inline bool hasNan(const std::string& t) { for (size_t i = 0; i + 3 <= t.size(); i++) if (tolower(t[i]) == 'n' && tolower(t[i + 1]) == 'a' && tolower(t[i + 2]) == 'n') return true; return false; }

// one shared log of function calls that survives the death of the process
struct Event { int fn; int done; double x[8]; double v; };
struct SharedLog { volatile int n; Event e[400]; };

struct HRow { dv x; double f = 0; dv c; std::vector<char> known; double imp = 0; bool tiny = false; int feas = 1; /* -1: undecidable */ std::vector<char> discarded; };

struct Monitor {
	// configuration
	Spec s; Rodop::Optimizer* opt = nullptr; std::string tag; Rng rng{1}; bool watchSearch = false, watchRefinement = false, delays = false, quietUdf = false;
	int nanFn = -1, nanCall = -1; bool negNan = false; int throws = 0; /* the function throws instead of returning NaN: 1 an exception, 2 an int */ int killFn = -1, killCall = -1; SharedLog* log = nullptr; bool oracle = true;
	// state
	std::vector<HRow> H; double ref = 0; bool hasRef = false; bool started = false, armedNan = false; dv nanAt; int calls[8] = {0}; bool nanDone = false;
	dv cur; std::vector<char> curDone; dv curVal; bool curOpen = false; int evals = 0; std::vector<std::string> fileText; std::vector<rows_t> fileRows; std::vector<dv> cand; std::mutex mtx; std::atomic<bool> mute{false}; std::vector<std::pair<dv, double>> doe[8]; int total = 0; int evaluationsAtNan = -1;
	double sigma0 = 0; bool haveFactor = false; double trLength = 0.8, bestImp = 0; int trSuccesses = 0, trFailures = 0; bool trKnown = true; bool lightSearch = false; int beaten = 0;

	const char* only = nullptr; // all discrepancies count for this property
	void bad(const char* p, const std::string& key, const std::string& d) { rv::viol(only ? only : p, only && strcmp(only, p) ? std::string(p) + ":" + key : key, tag + d + "  [" + s.text() + "]"); }
	std::string fileOf(int k) const { return k ? s.con[k - 1].file : s.file; }

	// ---------------------------------------------------------------- callbacks
	double call(int k, const double* x0) {
		const Fn& f = s.fn(k); double v = f(x0); dv x(x0, x0 + s.d);
		int idx = calls[k]++, fail = 0;
		if (k == nanFn && idx == nanCall) { v = negNan ? -NAN : NAN; nanDone = true; fail = throws; }
		if (nanFn > 0 && !s.pointer(nanFn) && k == 0 && idx == nanCall) { std::lock_guard<std::mutex> g(mtx); nanAt = x; armedNan = true; }
		int slot = -1;
		if (log) { slot = log->n; Event& e = log->e[slot]; e.fn = k; e.done = 0; for (int i = 0; i < s.d; i++) e.x[i] = x[i]; e.v = v; log->n = slot + 1; }
		if (k == killFn && idx == killCall) { kill(getpid(), SIGKILL); for (;;) pause(); }
		if (oracle) observe(k, x, v);
		if (fail == 1) throw std::runtime_error("the simulation failed"); if (fail == 2) throw 42;
		if (log) log->e[slot].done = 1;
		return v;
	}
	double udf(int id, const double* x0) {
		double v = s.con[id].f(x0);
		if (armedNan) { std::lock_guard<std::mutex> g(mtx); if (id + 1 == nanFn && dv(x0, x0 + s.d) == nanAt) { nanDone = true; return NAN; } }
		if (quietUdf || mute) return v;
		if (watchSearch && id == firstUdf()) { dv x(x0, x0 + s.d); std::lock_guard<std::mutex> g(mtx); cand.push_back(x); }
		if (delays) { unsigned h = (unsigned)rv::mix((uint64_t)(int64_t)std::fmod(x0[0] * 1e6, 1e15), 17); if (h % 16 == 0) { struct timespec t = {0, (long)(h >> 8) % 60000}; nanosleep(&t, 0); } else if (h % 16 < 4) sched_yield(); }
		return v;
	}
	int firstUdf() const { for (size_t i = 0; i < s.con.size(); i++) if (s.con[i].udf) return (int)i; return -1; }

	// ---------------------------------------------------------------- trace
	bool complete() const { for (int k = 0; k < s.fns(); k++) if (s.pointer(k) && !curDone[k]) return false; return true; }
	void observe(int k, const dv& x, double v) {
		total++; rv::count("function calls");
		if (s.doe && !started && (int)doe[k].size() < s.doe) { inBox(x, false, "DoE sample"); doe[k].push_back({x, v}); return; }
		if (!started) begin();
		if (evaluationsAtNan >= 0 && !(curOpen && rv::sameBits(x, cur))) bad("R08", "evaluation-after-nan", "function " + std::to_string(k) + " is evaluated at a new design after a NaN result");
		if (curOpen && curDone[k]) { if (!complete()) bad("R01", "evaluated-twice", "function " + std::to_string(k) + " is evaluated again before the other functions of the design"); finish(); }
		if (!curOpen) {
			curOpen = true; cur = x; curDone.assign(s.fns(), 0); curVal.assign(s.fns(), 0); evals++;
			if (evals > s.N) bad("R01", "budget-exceeded", "evaluation " + std::to_string(evals) + " of " + std::to_string(s.N));
			checkState("before evaluation " + std::to_string(evals), true);
			inBox(x, true, "evaluated design"); onGrid(x);
			if ((watchRefinement || watchSearch) && opt) searchOracles(x);
		} else {
			if (!rv::sameBits(x, cur)) bad("R01", "constraint-at-other-design", "function " + std::to_string(k) + " is called at " + rv::fmt(x) + ", the design is " + rv::fmt(cur));
			checkState("within evaluation " + std::to_string(evals), false);
		}
		curDone[k] = 1; curVal[k] = v; rv::count("evaluations of function " + std::to_string(k));
		if (std::isnan(v)) evaluationsAtNan = evals;
	}
	// the training data on disk becomes the initial history
	void begin() {
		started = true; fileText.assign(s.fns(), ""); fileRows.assign(s.fns(), rows_t());
		for (int k = 0; k < s.fns(); k++) if (s.pointer(k)) {
			if (s.doe) { rv::Csv c = rv::readCsv(fileOf(k), false); if (!c.ok) { bad("R06", "doe-file", c.error); } else (k ? s.con[k - 1].rows : s.rows) = c.rows; fileText[k] = rv::slurp(fileOf(k)); checkDoe(k, false); }
			else fileText[k] = csvText(k ? s.con[k - 1].rows : s.rows, k ? s.con[k - 1].newline : s.newline);
			fileRows[k] = k ? s.con[k - 1].rows : s.rows;
		}
		for (auto& r : s.rows) {
			HRow h; h.x = dv(r.begin(), r.begin() + s.d); h.f = r[s.d]; h.feas = 1; bool maybe = false;
			for (auto& c : s.con) {
				double v = 0; char known = 1;
				if (c.udf) v = c.f(h.x.data());
				else { known = 0; bool amb = false; for (auto& q : c.rows) { double m = 0; for (int i = 0; i < s.d; i++) m = std::max(m, std::fabs(q[i] - h.x[i])); if (m <= 5e-9) { if (known && v != q[s.d]) amb = true; if (!known) { known = 1; v = q[s.d]; } } else if (m <= 2e-8) amb = true; } if (amb) { known = 2; } }
				h.c.push_back(v); h.known.push_back(known); if (known == 0) h.feas = 0; else if (known == 2) maybe = true; else if (!(c.gt ? v > c.thr : v < c.thr)) h.feas = 0;
			}
			if (!s.con.empty()) for (int i = 0; i < s.d; i++) { double tol = 1e-9 + 1e-12 * std::max(std::fabs(s.lb[i]), std::fabs(s.ub[i])); if (h.x[i] < s.lb[i] - tol || h.x[i] > s.ub[i] + tol) h.feas = 0; else if ((h.x[i] < s.lb[i] || h.x[i] > s.ub[i])) maybe = true; }
			if (maybe && h.feas) h.feas = -1;
			H.push_back(h);
			if (h.feas == 1 && (!hasRef || h.f < ref)) { hasRef = true; ref = h.f; }
			rv::count(h.feas == 1 ? "feasible training samples" : "infeasible training samples");
		}
		rv::count("studies started");
	}
	void checkDoe(int k, bool partial) {
		const rows_t& r = k ? s.con[k - 1].rows : s.rows; auto& e = doe[k]; size_t n = r.size();
		if (n != e.size()) { bad(partial ? "R09" : "R06", "doe-rows", "file of function " + std::to_string(k) + " has " + std::to_string(n) + " rows after " + std::to_string(e.size()) + " evaluations"); return; }
		for (size_t i = 0; i < n; i++) { bool ok = r[i].size() == (size_t)s.d + 1; for (int j = 0; ok && j <= s.d; j++) { double w = j < s.d ? e[i].first[j] : e[i].second; ok = std::fabs(r[i][j] - w) <= 1e-10 + 1e-15 * std::fabs(w); } if (!ok) bad(partial ? "R09" : "R06", "doe-row", "function " + std::to_string(k) + " row " + std::to_string(i) + ": " + rv::fmt(r[i]) + " was evaluated at " + rv::fmt(e[i].first) + " = " + S(e[i].second)); rv::count("DoE rows compared"); }
	}
	HRow row() const { HRow h; h.x = cur; h.f = curVal[0]; h.feas = 1; for (size_t j = 0; j < s.con.size(); j++) { const Con& c = s.con[j]; double v = c.udf ? c.f(cur.data()) : curVal[j + 1]; h.c.push_back(v); h.known.push_back(1); if (!(c.gt ? v > c.thr : v < c.thr)) h.feas = 0; } h.discarded.assign(s.fns(), 0); return h; }
	void finish() {
		curOpen = false; HRow h = row();
		if (h.feas) { if (!hasRef) { bool undecided = false; for (auto& q : H) undecided |= q.feas < 0; h.tiny = !undecided; if (undecided) h.imp = NAN; hasRef = true; ref = h.f; rv::count("first feasible designs"); } else if (h.f < ref) { h.imp = ref - h.f; for (auto& q : H) if (q.feas < 0 && q.f < ref) h.imp = NAN; rv::count("improvements"); } }
		rv::count(h.feas ? "feasible designs" : "infeasible designs"); trust(h);
		for (int k = 0; k < s.fns(); k++) if (s.pointer(k)) stored(k, h);
		H.push_back(h);
	}
	// the trust region: doubled (at most to the box) after three improvements in a row, halved after fifteen evaluations without one
	void trust(const HRow& h) {
		if (std::isnan(h.imp)) { trKnown = false; return; }
		double imp = h.tiny ? 2.2e-16 : h.imp; if (imp > bestImp) { if (imp - bestImp < 1e-12 * (std::fabs(ref) + std::fabs(h.f)) && !h.tiny) trKnown = false; bestImp = imp; trFailures = 0; if (++trSuccesses == 3) { trLength = std::min(1.0, 2 * trLength); trSuccesses = 0; rv::count("trust regions enlarged"); } }
		else { trSuccesses = 0; if (++trFailures == 15) { trLength = std::max(std::pow(0.5, 8), trLength / 2); trFailures = 0; rv::count("trust regions halved"); } }
	}
	// the row that must have been appended to the training file of function k
	void stored(int k, HRow& h) {
		dv r = h.x; r.push_back(k ? h.c[k - 1] : h.f); double best = INFINITY;
		for (auto& q : fileRows[k]) { double m = 0; for (size_t i = 0; i < r.size(); i++) m = std::max(m, std::fabs(q[i] - r[i])); best = std::min(best, m); }
		int want = best <= 1e-4 * (1 - 1e-7) ? 0 : best >= 1e-4 * (1 + 1e-7) ? 1 : -1; h.discarded[k] = want == 0; std::string t = rv::slurp(fileOf(k)), &old = fileText[k], who = "training file of function " + std::to_string(k);
		rv::count(want == 0 ? "repeated samples" : "new samples");
		if (t.compare(0, old.size(), old)) { bad("R06", "earlier-rows-changed", who + " does not start with its earlier text"); return; }
		std::string add = t.substr(old.size()); if (!old.empty() && old.back() != '\n' && !add.empty()) { if (add[0] != '\n') { bad("R06", "row-merged", who + ": " + add); return; } add = add.substr(1); rv::count("missing newlines"); }
		if (add.empty()) { if (want == 1) { bad("R06", "sample-missing", who + " has no row for " + rv::fmt(r)); bad("R09", "sample-not-on-disk", who + " has no row for " + rv::fmt(r)); } if (want < 0) h.discarded[k] = 1; return; }
		if (want == 0) bad("R06", "repeated-sample-stored", who + " stores " + add + " again, distance " + S(best));
		if (add.back() != '\n' || std::count(add.begin(), add.end(), '\n') != 1) { bad("R06", "not-one-row", who + " gained '" + add + "'"); }
		std::vector<std::string> cells; std::stringstream ss(add.substr(0, add.find('\n'))); std::string cell; while (std::getline(ss, cell, ',')) cells.push_back(cell);
		bool ok = cells.size() == r.size(); dv got;
		for (size_t i = 0; ok && i < cells.size(); i++) { char* e; double v = strtod(cells[i].c_str(), &e); got.push_back(v); ok = !*e && std::fabs(v - r[i]) <= 5.1e-11 + 3e-16 * std::fabs(r[i]); if (cells[i].find_first_of("eE") == std::string::npos) { size_t p = cells[i].find('.'); if (p == std::string::npos || cells[i].size() - p - 1 < 10) { bad("R06", "digits", who + ": " + cells[i]); } } }
		if (!ok) bad("R06", "wrong-row", who + " gained '" + add + "' for " + rv::fmt(r));
		else fileRows[k].push_back(got);
		fileText[k] = t; rv::count("appended rows");
	}

	// ---------------------------------------------------------------- state on disk and in memory
	void checkState(const std::string& when, bool exact) {
		for (int k = 0; k < s.fns(); k++) if (s.pointer(k)) { std::string t = rv::slurp(fileOf(k)); if (exact ? t != fileText[k] : t.compare(0, fileText[k].size(), fileText[k]) != 0) { bad("R06", "training-file-state", when + ": training file of function " + std::to_string(k) + " is not the initial data plus the evaluated samples"); fileText[k] = t; } if (hasNan(t)) bad("R08", "nan-in-training-data", when); }
		checkHistory(when, exact); if (exact) checkOptimum(when);
	}
	bool rowOk(const dv& g, const HRow& h, bool exact, std::string& why) {
		size_t n = s.d + 1 + s.con.size() + 2; if (g.size() != n) { why = "R03:" + std::to_string(g.size()) + " columns"; return false; }
		auto same = [&](double a, double b) { return exact ? a == b : std::fabs(a - b) <= 1e-6 + 1e-14 * std::fabs(b); };
		for (int i = 0; i < s.d; i++) if (!same(g[i], h.x[i])) { why = "R03:parameter " + std::to_string(i) + " is " + S(g[i]) + ", evaluated " + S(h.x[i]); return false; }
		if (!same(g[s.d], h.f)) { why = "R03:objective is " + S(g[s.d]) + ", returned " + S(h.f); return false; }
		for (size_t j = 0; j < s.con.size(); j++) if (h.known[j] == 1 && !same(g[s.d + 1 + j], h.c[j])) { why = "R03:constraint " + std::to_string(j) + " is " + S(g[s.d + 1 + j]) + ", returned " + S(h.c[j]); return false; }
		double imp = g[n - 2], fe = g[n - 1];
		if (h.feas >= 0 && fe != h.feas) { why = "R05:feasibility is " + S(fe) + " for constraint values " + rv::fmt(h.c); return false; }
		if (h.tiny ? !(exact ? imp > 0 && imp <= 1e-10 : imp >= 0 && imp <= 1e-6) : std::isnan(h.imp) ? false : std::fabs(imp - h.imp) > (exact ? 1e-12 * (std::fabs(ref) + std::fabs(h.f)) : 1e-6 + 1e-12 * (std::fabs(ref) + std::fabs(h.f)))) { why = "R05:improvement is " + S(imp) + ", expected " + (h.tiny ? "a tiny positive number" : S(h.imp)); return false; }
		return true;
	}
	void checkHistory(const std::string& when, bool exact) {
		rv::count("history states compared"); std::string why;
		if (opt && exact) { Rodop::mat m = opt->getHistory(); if (m.getNRows() != H.size()) bad("R03", "history-rows", when + ": " + std::to_string(m.getNRows()) + " rows in memory, " + std::to_string(H.size()) + " samples"); else for (size_t i = 0; i < H.size(); i++) { dv g(m.getNCols()); for (unsigned j = 0; j < m.getNCols(); j++) g[j] = m(i, j); if (!rowOk(g, H[i], true, why)) { bad(why.substr(0, 3).c_str(), "history-row", when + ", row " + std::to_string(i) + " in memory: " + why.substr(4)); break; } rv::count("history rows compared exactly"); } }
		rv::Csv c = rv::readCsv("optimizationHistory.csv", true);
		if (!c.ok) { bad("R03", "history-file", when + ": " + c.error); return; }
		if (hasNan(rv::slurp("optimizationHistory.csv"))) bad("R08", "nan-in-history", when);
		if (!c.endsWithNewline) bad("R09", "history-file-incomplete", when);
		std::vector<std::string> want = s.names; if (want.empty()) for (int i = 0; i < s.d; i++) want.push_back("x" + std::to_string(i + 1)); want.push_back("Objective"); for (auto& q : s.con) want.push_back(q.name); want.push_back("Improvement"); want.push_back("Feasibility");
		std::vector<std::string> got; for (auto q : c.header) { while (!q.empty() && isspace(q.back())) q.pop_back(); while (!q.empty() && isspace(q[0])) q = q.substr(1); got.push_back(q); }
		if (got != want) { std::string t; for (auto& q : got) t += q + "|"; bad("R03", "header", when + ": " + t); }
		if (exact ? c.rows.size() != H.size() : c.rows.size() < H.size()) { bad("R03", "history-file-rows", when + ": " + std::to_string(c.rows.size()) + " rows in the file, " + std::to_string(H.size()) + " samples"); if (c.rows.size() < H.size()) bad("R09", "history-row-lost", when); return; }
		for (size_t i = 0; i < H.size(); i++) if (!rowOk(c.rows[i], H[i], false, why)) { bad(why.substr(0, 3).c_str(), "history-file-row", when + ", row " + std::to_string(i) + ": " + why.substr(4) + "  line: " + c.lines[i]); break; }
	}
	static bool tagOf(const std::string& t, const std::string& n, std::string& out) { size_t a = t.find("<" + n + ">"), b = t.find("</" + n + ">"); if (a == std::string::npos || b == std::string::npos || b < a) return false; out = t.substr(a + n.size() + 2, b - a - n.size() - 2); return true; }
	static dv items(std::string t) { dv r; std::string x; while (tagOf(t, "item", x)) { r.push_back(strtod(x.c_str(), 0)); t = t.substr(t.find("</item>") + 7); } return r; }
	double bestValue(bool& feasible, bool& undecided) const { feasible = undecided = false; double b = INFINITY; for (auto& h : H) { if (h.feas < 0) undecided = true; if (h.feas == 1) { feasible = true; b = std::min(b, h.f); } } if (!feasible) for (auto& h : H) b = std::min(b, h.f); return b; }
	double lastReported = INFINITY;
	void checkOptimum(const std::string& when) {
		bool ok; std::string t = rv::slurp("globalOptimalDesign.xml", &ok), v; if (!ok || t.find("</GlobalOptimalDesign>") == std::string::npos) { bad("R04", "optimum-file", when + ": missing or incomplete"); return; }
		if (hasNan(t)) bad("R08", "nan-in-optimum", when);
		bool feas, und; double b = bestValue(feas, und); if (und) { rv::count("undecidable optima"); return; }
		rv::count(feas ? "feasible optima compared" : "infeasible optima compared");
		if (!tagOf(t, "DesignID", v)) { bad("R04", "optimum-id", when); return; } long id = atol(v.c_str());
		if (id < 0 || id >= (long)H.size()) { bad("R04", "optimum-id", when + ": id " + v); return; }
		const HRow& h = H[id];
		if (h.f != b || (feas && h.feas != 1)) { bad("R04", "not-the-best", when + ": reported row " + v + " with objective " + S(h.f) + (h.feas ? " feasible" : " infeasible") + ", the best is " + S(b) + (feas ? " feasible" : " infeasible")); return; }
		auto same = [](double a, double q) { return std::fabs(a - q) <= 1e-6 + 1e-14 * std::fabs(q); };
		if (!tagOf(t, "ObjectiveFunction", v) || !same(strtod(v.c_str(), 0), h.f)) bad("R04", "optimum-objective", when + ": " + v + " for " + S(h.f));
		else if (feas) { if (strtod(v.c_str(), 0) > lastReported + 1e-6) bad("R04", "optimum-increases", when); lastReported = strtod(v.c_str(), 0); }
		if (!tagOf(t, "DesignParameters", v)) bad("R04", "optimum-parameters", when); else { dv p = items(v); bool g = p.size() == h.x.size(); for (size_t i = 0; g && i < p.size(); i++) g = same(p[i], h.x[i]); if (!g) bad("R04", "optimum-parameters", when + ": " + rv::fmt(p) + " for " + rv::fmt(h.x)); }
		if (!s.con.empty()) { if (!tagOf(t, "ConstraintValues", v)) bad("R04", "optimum-constraints", when); else { dv p = items(v); bool g = p.size() == h.c.size(); for (size_t i = 0; g && i < p.size(); i++) g = h.known[i] != 1 || same(p[i], h.c[i]); if (!g) bad("R04", "optimum-constraints", when + ": " + rv::fmt(p) + " for " + rv::fmt(h.c)); } }
		if (!tagOf(t, "Feasibility", v) || v != (feas ? "YES" : "NO")) bad("R04", "optimum-feasibility", when + ": " + v);
	}

	// ---------------------------------------------------------------- designs
	void inBox(const dv& x, bool grid, const std::string& what) { (void)grid; for (int i = 0; i < s.d; i++) { double w = s.ub[i] - s.lb[i], tol = 1e-12 * w + 4e-16 * std::max(std::fabs(s.lb[i]), std::fabs(s.ub[i])); rv::count("coordinates in the box"); if (!(x[i] >= s.lb[i] - tol && x[i] <= s.ub[i] + tol)) bad("R02", "outside-box", what + " " + rv::fmt(x) + " entry " + std::to_string(i) + " not in [" + S(s.lb[i]) + ", " + S(s.ub[i]) + "]"); } }
	long gridSize(int q) const { int i = s.disc[q].first; return (long)std::floor((s.ub[i] - s.lb[i]) / s.disc[q].second + 1e-9); }
	void onGrid(const dv& x) { for (size_t q = 0; q < s.disc.size(); q++) { int i = s.disc[q].first; double inc = s.disc[q].second; long k = std::lround((x[i] - s.lb[i]) / inc); double g = s.lb[i] + k * inc; rv::count("discrete entries"); if (k < 0 || k > gridSize(q) || std::fabs(x[i] - g) > 1e-9 * inc + 1e-15 * std::fabs(g)) bad("R02", "off-grid", "entry " + std::to_string(i) + " = " + S(x[i]) + ", lower bound " + S(s.lb[i]) + " increment " + S(inc)); if (k == gridSize(q) && std::fabs(s.lb[i] + k * inc - s.ub[i]) < 1e-9 * inc) rv::count("upper bound chosen"); } }
	dv denorm(const dv& u) const { dv x(s.d); for (int i = 0; i < s.d; i++) x[i] = u[i] * s.d * (s.ub[i] - s.lb[i]) + s.lb[i]; return x; }
	Rodop::DesignForBayesianOptimization valueAt(const dv& u) { Rodop::DesignForBayesianOptimization q(mv(u), (int)s.con.size()); auto n = opt->iterGradientEILoop; opt->iterGradientEILoop = 0; auto r = opt->maximizeAcqusitionFunctionGradientBased(q); opt->iterGradientEILoop = n; return r; }
	static ld ei(ld m, ld f, ld sg) { if (sg <= 0) return 0; ld z = (m - f) / sg; return (m - f) * 0.5L * erfcl(-z / sqrtl(2)) + sg * expl(-z * z / 2) / sqrtl(2 * M_PIl); }
	ld probability(const Rodop::DesignForBayesianOptimization& q, ld& err) { ld p = 1; err = 0; for (size_t j = 0; j < s.con.size(); j++) { double c = q.constraintValues.get(j), sg = q.constraintSigmas.get(j); ld pj; if (sg < 1e-12) { pj = s.con[j].gt ? (c >= s.con[j].thr ? 1 : 0) : (c <= s.con[j].thr ? 1 : 0); if (std::fabs(c - s.con[j].thr) < 1e-9 * (1 + std::fabs(c))) return -1; } else { ld z = ((ld)s.con[j].thr - c) / sg; pj = 0.5L * erfcl((s.con[j].gt ? z : -z) / sqrtl(2)); } err += 4e-16L; p *= pj; } return p; }
	// The acquisition function of the optimizer at u against EI x probabilities for its own mean and deviation; factor <= 0: unknown
	void acquisitionOracle(const Rodop::DesignForBayesianOptimization& q, double best, double& factor, const std::string& what) {
		double f = q.objectiveFunctionValue, sg = q.sigma, a = q.valueAcquisitionFunction; ld perr; ld p = probability(q, perr); if (p < 0) return;
		auto expect = [&](double fac) { return (fac * sg <= 1.1e-13 ? 0.0L : ei(best, f, (ld)fac * sg)) * p; };
		bool inferred = evals != 1; auto tol = [&](ld e, double fac) { ld z = fac * sg > 0 ? (best - f) / (fac * sg) : 0; return (inferred ? 1e-7L * (1 + z * z) : 1e-9L) * fabsl(e) + (1e-14L + perr) * (std::fabs(best - f) + fac * sg) * 8 + 1e-300L; };
		if (!std::isfinite(a)) { bad("R10", "acquisition-not-finite", what + ": " + S(a)); return; }
		if (sg < 2e-13 || !std::isfinite(f)) { rv::count("vanishing deviations"); return; }
		if (factor > 0) { ld e = expect(factor); rv::count("acquisition values recomputed"); if (fabsl(a - e) > tol(e, factor)) bad("R10", "acquisition-value", what + ": " + S(a) + " instead of " + S((double)e) + " (prediction " + S(f) + ", deviation " + S(sg) + ", best " + S(best) + ", factor " + S(factor) + ", feasibility probability " + S((double)p) + ")"); return; }
		// only the range of the scale factor is known
		ld e1 = expect(1.0), e2 = expect(100.0); if (a < e1 - tol(e1, 1) || a > e2 + tol(e2, 100)) { bad("R10", "acquisition-value", what + ": " + S(a) + " not between " + S((double)e1) + " and " + S((double)e2)); return; }
		rv::count("acquisition values bracketed");
		if (p < 1e-3 || fabsl(best - f) > 1e3 * sg || e2 - e1 < 1e-3 * e2) return;
		double lo = 1, hi = 100; for (int it = 0; it < 80; it++) { double m = 0.5 * (lo + hi); (expect(m) < a ? lo : hi) = m; } double fm = 0.5 * (lo + hi); if (a > 1e-5 * (std::fabs(best - f) + fm * sg) && expect(1.01 * fm) - expect(fm) > 1e-3L * expect(fm)) factor = fm;
	}
	void searchOracles(const dv& x) {
		mute = true; int n = s.d; bool feas, und; double b = bestValue(feas, und);
		Rodop::DesignForBayesianOptimization D = opt->getDesignWithMaxExpectedImprovement(), R = opt->maximizeAcqusitionFunctionGradientBased(D); dv u = sv(D.dv), r = sv(R.dv);
		// the evaluated design is the refined one, moved to the grid
		dv y = denorm(r); for (size_t q = 0; q < s.disc.size(); q++) { int i = s.disc[q].first; double inc = s.disc[q].second, t = (y[i] - s.lb[i]) / inc; long k = std::lround(t); k = std::max(0L, std::min(k, gridSize(q))); if (std::fabs(std::fabs(t - std::floor(t)) - 0.5) < 1e-9 && k < gridSize(q)) { y[i] = x[i]; continue; } y[i] = s.lb[i] + k * inc; }
		for (int i = 0; i < n; i++) if (std::fabs(y[i] - x[i]) > 1e-9 * (s.ub[i] - s.lb[i]) + 1e-14 * std::fabs(y[i])) { bool disc = false; for (auto& q : s.disc) disc |= q.first == i; bad(disc ? "R02" : "R10", disc ? "not-nearest-grid-value" : "proposed-design-not-evaluated", "evaluated " + rv::fmt(x) + ", the search proposed " + rv::fmt(denorm(r))); break; }
		rv::count("proposals compared");
		if (watchSearch && !und) {
			double tol = 1e-12; auto best = sv(Rodop::vec()); bool inTrust = false;
			for (int i = 0; i < n; i++) for (auto* p : {&u, &r}) if ((*p)[i] < -tol || (*p)[i] > 1.0 / n + tol) bad("R10", "outside-design-space", rv::fmt(*p));
			double len = trKnown ? trLength : 1.0;
			std::vector<dv> all; { std::lock_guard<std::mutex> g(mtx); for (auto& q : cand) { bool init = false; for (auto& h : H) init |= q == h.x; if (!init) all.push_back(q); } } bool covered = s.inner < 90 || (int)all.size() < s.inner || !trKnown; if (!covered) rv::count("coverages of trust regions");
			for (auto& h : H) { if (!(h.f == b && (!feas || h.feas == 1))) continue; bool in = true, cov = true; for (int i = 0; i < n; i++) { double c = (h.x[i] - s.lb[i]) / (s.ub[i] - s.lb[i]) / n, lo = std::min(std::max(c - len / n, 0.0), 1.0 / n), hi = std::min(std::max(c + len / n, 0.0), 1.0 / n), cl = INFINITY, ch = -INFINITY; for (auto* p : {&u, &r}) if ((*p)[i] < lo - 1e-9 || (*p)[i] > hi + 1e-9) in = false; for (auto& q : all) { double z = (q[i] - s.lb[i]) / (s.ub[i] - s.lb[i]) / n; cl = std::min(cl, z); ch = std::max(ch, z); } if (cl > lo + 0.25 * (hi - lo) || ch < hi - 0.25 * (hi - lo)) cov = false; } inTrust |= in; covered |= cov; }
			if (!covered) bad("R10", "trust-region-not-searched", std::to_string(all.size()) + " candidates do not reach the outer quarters of the trust region of length " + S(len));
			if (!inTrust) bad("R10", "outside-trust-region", rv::fmt(u) + " refined " + rv::fmt(r)); rv::count("trust regions"); if (len < 0.5) rv::count("proposals in halved trust regions"); if (lightSearch) { std::lock_guard<std::mutex> g(mtx); cand.clear(); mute = false; return; }
			double best0 = feas ? b : 1e15, factor = evals == 1 ? 1.0 : -1; auto V = valueAt(u); if (!(V.valueAcquisitionFunction == D.valueAcquisitionFunction || rv::close(V.valueAcquisitionFunction, D.valueAcquisitionFunction, 1e-9))) bad("R10", "stale-acquisition-value", "the proposed design has " + S(D.valueAcquisitionFunction) + ", its position " + S(V.valueAcquisitionFunction));
			if (R.valueAcquisitionFunction < D.valueAcquisitionFunction * (1 - 1e-12)) bad("R10", "refinement-got-worse", S(D.valueAcquisitionFunction) + " -> " + S(R.valueAcquisitionFunction));
			auto VR = valueAt(r); if (!rv::close(VR.valueAcquisitionFunction, R.valueAcquisitionFunction, 1e-9, 1e-300)) bad("R10", "stale-acquisition-value", "the refined design has " + S(R.valueAcquisitionFunction) + ", its position " + S(VR.valueAcquisitionFunction));
			if (s.con.empty()) { // without constraints the candidates are not visible: the proposal is compared with a few points of the trust region instead
				rv::count("unconstrained proposals"); if (s.inner >= 150 && trKnown) for (auto& h : H) if (h.f == b) { bool lost = false; for (int t = 0; t < 4; t++) { dv w(n); for (int i = 0; i < n; i++) { double c = (h.x[i] - s.lb[i]) / (s.ub[i] - s.lb[i]) / n, lo = std::min(std::max(c - len / n, 0.0), 1.0 / n), hi = std::min(std::max(c + len / n, 0.0), 1.0 / n); w[i] = rng.uni(lo, hi); } double a = valueAt(w).valueAcquisitionFunction; lost |= a > D.valueAcquisitionFunction * (1 + 1e-6) + 1e-300; } beaten += lost; break; }
				if (beaten >= 4) { bad("R10", "search-no-better-than-chance", std::to_string(beaten) + " proposals of " + std::to_string(s.inner) + " candidates are beaten by one of 4 random points"); beaten = 0; } }
			acquisitionOracle(D, best0, factor, "proposed design"); acquisitionOracle(R, best0, factor, "refined design");
			// candidates seen through the user-defined constraint
			std::vector<dv> c; { std::lock_guard<std::mutex> g(mtx); c.swap(cand); } dv xd = denorm(u); size_t last = c.size(), seen = 0; for (size_t i = 0; i < c.size(); i++) { double m = 0; for (int j = 0; j < n; j++) m = std::max(m, std::fabs(c[i][j] - xd[j]) / (s.ub[j] - s.lb[j])); if (m < 1e-13) { if (++seen == 2) { last = i; break; } } }
			if (seen < 2) last = 0;
			size_t step = std::max<size_t>(1, c.size() / 400);
			for (size_t i = 0; i < c.size(); i += (i < last || !last ? 1 : step)) { bool init = false; for (auto& q : H) init |= c[i] == q.x; if (init) continue; dv w(n); bool out = false; for (int j = 0; j < n; j++) { w[j] = (c[i][j] - s.lb[j]) / (s.ub[j] - s.lb[j]) / n; out |= w[j] < -1e-9 || w[j] > 1.0 / n + 1e-9; } if (out) continue;
				auto q = valueAt(w); double a = q.valueAcquisitionFunction; rv::count(i < last ? "search candidates" : "refinement candidates"); if (i % 37 == 0) acquisitionOracle(q, best0, factor, "candidate");
				double lim = i < last ? D.valueAcquisitionFunction : R.valueAcquisitionFunction, slack = 1e-6 * std::fabs(lim) + 1e-12 * (q.sigma + 1e-300);
				if (a > lim + slack) { auto span = [&](const dv& z0, double v0, double& lo, double& hi) { lo = hi = v0; for (int t = 0; t < 24; t++) { dv z = z0; for (auto& q2 : z) q2 *= 1 + (t % 2 ? 1 : -1) * std::pow(10.0, -15.5 + t / 4 * 0.7); double v = valueAt(z).valueAcquisitionFunction; lo = std::min(lo, v); hi = std::max(hi, v); } }; double cl, ch, rl, rh; span(w, a, cl, ch); span(i < last ? u : r, lim, rl, rh); a = cl; lim = rh; slack += 2 * ((ch - cl) + (rh - rl)); }
				if (a > lim + slack) bad("R10", i < last ? "better-candidate-lost" : "refinement-lost-better", "candidate " + rv::fmt(c[i]) + " has " + S(a) + ", returned " + S(lim)); }
			replica(D, 0); for (size_t j = 0; j < s.con.size(); j++) if (!s.con[j].udf) replica(D, j + 1);
		}
		mute = false;
	}
	// the prediction behind the proposal is the Kriging prediction from the data on disk
	void replica(const Rodop::DesignForBayesianOptimization& D, int k) {
		std::string hf = (k ? s.con[k - 1].name : std::string("objf")) + "_hyperparameters.csv"; rv::Csv h = rv::readCsv(hf, false); if (!h.ok || (int)h.rows.size() != 2 * s.d) { rv::count("no hyperparameter file"); return; } dv hy; for (auto& q : h.rows) hy.push_back(q[0]);
		rows_t x; dv y; for (auto& q : fileRows[k]) { x.push_back(dv(q.begin(), q.begin() + s.d)); y.push_back(q[s.d]); } kref::Krig K; K.build(kref::normalize(x, s.lb, s.ub), y, hy, k ? s.con[k - 1].uni : s.uni); if (!K.ok || K.tol() > 1e-6) { rv::count("ill-conditioned replicas"); return; }
		double f = k ? D.constraintValues.get(k - 1) : D.objectiveFunctionValue, sg = k ? D.constraintSigmas.get(k - 1) : D.sigma, e = (double)K.at(sv(D.dv)), v = std::max(0.0, (double)K.var(sv(D.dv))); rv::count("predictions of the proposal");
		if (std::fabs(f - e) > (K.tol() * 200 + 1e-8) * K.scale()) bad("R10", "prediction-of-proposal", "function " + std::to_string(k) + ": " + S(f) + " instead of " + S(e));
		if (std::fabs(sg * sg - v) > (K.tol() * 2000 + 1e-6) * ((double)K.s2 + (double)K.yscale * K.yscale * 1e-9 + v)) bad("R10", "variance-of-proposal", "function " + std::to_string(k) + ": " + S(sg * sg) + " instead of " + S(v));
	}
	void endOfRun() {
		if (!started) { if (s.N > 0) bad("R01", "budget-not-used", "no evaluation"); return; }
		if (curOpen) { if (!complete()) bad("R01", "function-not-evaluated", "the last design was not evaluated by all functions"); else finish(); }
		if (evals != s.N) bad("R01", "budget-not-used", std::to_string(evals) + " of " + std::to_string(s.N) + " evaluations"); else rv::count("budgets met");
		for (int k = 0; k < s.fns(); k++) if (s.pointer(k) && s.doe && (int)doe[k].size() != s.doe) bad("R01", "doe-size", "function " + std::to_string(k));
		if (s.doe) for (int k = 1; k < s.fns(); k++) if (s.pointer(k)) { std::vector<dv> a, b; for (auto& e : doe[0]) a.push_back(e.first); for (auto& e : doe[k]) b.push_back(e.first); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) bad("R01", "doe-designs", "function " + std::to_string(k) + " is not evaluated at the samples of the objective"); rv::count("DoE sets compared"); }
		checkState("at the end", true);
	}
};
extern Monitor* M;
template <int K> double cbf(const double* x) { return M->call(K, x); }
typedef double (*fptr)(const double*);
static inline fptr cbOf(int k) { static fptr t[] = {cbf<0>, cbf<1>, cbf<2>, cbf<3>, cbf<4>}; return t[k]; }
#endif
