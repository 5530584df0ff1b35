#include "rv.hpp"
#include <random>
#include <atomic>
#include <mutex>
#include <sys/wait.h>
#include <cerrno>

namespace rv {
uint64_t deviceState = 1;
static std::atomic<uint64_t> deviceCtr{0};
int protoFd = 1;
int currentCase = -1;
static std::mutex mtx;
static std::map<std::string, long> counts;
static std::set<std::string> dist;
static std::map<std::string, int> violSeen;
static int samples = 0;
}

// Deterministic replays: every std::random_device of the process draws from the case's seed.
// (A method of libstdc++'s shared library, interposed by this definition; the code under test is untouched.)
namespace std {
random_device::result_type random_device::_M_getval() {
	uint64_t k = rv::deviceCtr.fetch_add(1, std::memory_order_relaxed);
	return (result_type)(rv::mix(rv::deviceState, k) >> 16);
}
}

namespace rv {
std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
std::string fmt(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
std::string fmt(const dv& x) { std::string s = "["; for (size_t i = 0; i < x.size(); i++) { if (i) s += ", "; s += fmt(x[i]); } return s + "]"; }
void emit(const std::string& l) { std::string s = l + "\n"; size_t o = 0; while (o < s.size()) { ssize_t k = write(protoFd, s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += k; } }
void viol(const char* prop, const std::string& key, const std::string& detail) {
	std::lock_guard<std::mutex> g(mtx);
	if (violSeen[std::string(prop) + key]++ >= 5) return;
	emit("RVVIOL {\"property\": " + jstr(prop) + ", \"key\": " + jstr(key) + ", \"case\": " + std::to_string(currentCase) + ", \"detail\": " + jstr(detail.substr(0, 1500)) + "}");
}
void count(const std::string& n, long k) { std::lock_guard<std::mutex> g(mtx); counts[n] += k; }
void distinct(const std::string& w) { std::lock_guard<std::mutex> g(mtx); dist.insert(w.substr(0, 200)); }
void sample(const std::string& j) { std::lock_guard<std::mutex> g(mtx); if (samples++ < 2) emit("RVSAMPLE " + j); }
bool sameBits(const dv& a, const dv& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
std::string slurp(const std::string& f, bool* ok) { std::ifstream i(f, std::ios::binary); if (ok) *ok = (bool)i; std::stringstream s; s << i.rdbuf(); return s.str(); }
void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; if (!o) { fprintf(stderr, "cannot write %s\n", f.c_str()); _exit(3); } }
bool exists(const std::string& f) { struct stat st; return !stat(f.c_str(), &st); }

Csv readCsv(const std::string& f, bool header) {
	Csv c; bool ok; std::string t = slurp(f, &ok);
	if (!ok) { c.error = "cannot open " + f; return c; }
	if (!t.empty() && t.back() != '\n') c.endsWithNewline = false;
	std::stringstream ss(t); std::string line; bool first = true;
	while (std::getline(ss, line)) {
		std::vector<std::string> cells; std::stringstream ls(line); std::string cell;
		while (std::getline(ls, cell, ',')) cells.push_back(cell);
		if (first && header) { c.header = cells; first = false; continue; }
		first = false;
		c.lines.push_back(line);
		std::vector<double> r;
		for (auto& x : cells) {
			char* e; double v = strtod(x.c_str(), &e);
			while (*e == ' ' || *e == '\r') e++;
			if (e == x.c_str() || *e) { c.error = "bad cell '" + x + "' in " + f; return c; }
			r.push_back(v);
		}
		if (!c.rows.empty() && c.rows[0].size() != r.size()) { c.error = "ragged row '" + line + "' in " + f; return c; }
		c.rows.push_back(r);
	}
	c.ok = true;
	return c;
}

void flush() {
	for (auto& c : counts) emit("RVCOUNT " + c.first + " " + std::to_string(c.second));
	for (auto& d : dist) emit("RVDISTINCT " + d);
	counts.clear(); dist.clear();
}
int forked(const std::function<void()>& f, int seconds) {
	fflush(nullptr); pid_t p = fork(); if (p < 0) _exit(3);
	if (!p) { counts.clear(); dist.clear(); alarm(seconds); f(); flush(); fflush(nullptr); _exit(0); }
	int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) _exit(3);
	if (WIFEXITED(st)) { int c = WEXITSTATUS(st); if (c >= 97 && c <= 99) _exit(c); return c; }
	return -WTERMSIG(st);
}
void threadCounts() { static long r0 = 0, t0 = 0, c0 = 0; long r, t, c; if (!rv_omp_counts) return; rv_omp_counts(&r, &t, &c); count("parallel regions", r - r0); count("threads in regions", t - t0); count("critical sections", c - c0); r0 = r; t0 = t; c0 = c; }
int runCases(int argc, char** argv, const std::function<void(const Args&, int, Rng&)>& f) {
	Args a;
	for (int i = 1; i < argc; i++) {
		std::string k = argv[i];
		if (k.substr(0, 2) != "--") { a.mode = k; continue; }
		if (i + 1 >= argc) return 3;
		std::string v = argv[++i]; k = k.substr(2);
		if (k == "seed") a.seed = strtoull(v.c_str(), 0, 10);
		else if (k == "cases") a.cases = atoi(v.c_str());
		else if (k == "shard") a.shard = atoi(v.c_str());
		else if (k == "shards") a.shards = atoi(v.c_str());
		else if (k == "start") a.start = atoi(v.c_str());
		else a.opt[k] = v;
	}
	// protocol on the original stdout; the code under test's std::cout goes to /dev/null
	protoFd = dup(1);
	fcntl(protoFd, F_SETFD, FD_CLOEXEC);
	int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); ::close(dn);
	uint64_t base = mix(a.seed, std::hash<std::string>()(a.mode));
	for (int k = a.start; k < a.cases; k++) {
		if (k % a.shards != a.shard) continue;
		currentCase = k;
		emit("RVCASE " + std::to_string(k));
		deviceState = mix(base, 2 * k + 1); deviceCtr = 0; srand((unsigned)deviceState);
		Rng r(mix(base, 2 * k));
		f(a, k, r);
	}
	flush();
	emit("RVDONE");
	return 0;
}
}
