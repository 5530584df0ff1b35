// Shared monitor kernel of the workload drivers: seeded randomness, cases, violations, counters.
#ifndef RV_HPP
#define RV_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <functional>
#include <limits>
#include <stdexcept>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

namespace rv {

typedef long double ld;
typedef std::vector<double> dv;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * u(); }
	int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
	bool chance(double p) { return u() < p; }
	double gauss() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
	double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
	template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL + b); r.next(); return r.next(); }

// ---- process-wide harness state
extern uint64_t deviceState;          // feeds std::random_device (interposed in rv.cpp)
extern int protoFd;                   // protocol output, separate from the chatter of the code under test

struct Args {
	uint64_t seed = 1; int cases = 1, shard = 0, shards = 1, start = 0; std::string mode; std::map<std::string, std::string> opt;
	std::string get(const std::string& k, const std::string& d = "") const { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
	int geti(const std::string& k, int d) const { auto i = opt.find(k); return i == opt.end() ? d : atoi(i->second.c_str()); }
};

std::string jstr(const std::string& s);
std::string fmt(double x);
std::string fmt(const dv& x);
void emit(const std::string& line);
void viol(const char* prop, const std::string& key, const std::string& detail);
void count(const std::string& name, long n = 1);
void distinct(const std::string& what);
void sample(const std::string& json);
void flush();                          // emits and clears counters (for forked cases)
int forked(const std::function<void()>& f, int seconds = 120); // runs f in a child; crashes of the child end this process the same way; returns its exit code or -signal
extern int currentCase;

inline bool close(double a, double b, double rel, double abs = 0) {
	if (std::isnan(a) || std::isnan(b)) return false;
	if (a == b) return true;
	return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
bool sameBits(const dv& a, const dv& b);
std::string slurp(const std::string& f, bool* ok = nullptr);
void spit(const std::string& f, const std::string& s);
bool exists(const std::string& f);

struct Csv { bool ok = false; std::vector<std::string> header; std::vector<std::vector<double>> rows; std::vector<std::string> lines; std::string error; bool endsWithNewline = true; };
Csv readCsv(const std::string& f, bool header);

}
// Runs the cases of this shard.
// the OpenMP stand-in of the data race checks (gomp.cpp), absent elsewhere
extern "C" __attribute__((weak)) void rv_omp_counts(long* regions, long* threads, long* criticals);
extern "C" __attribute__((weak)) void rv_omp_seed(unsigned long s);
namespace rv {
void threadCounts();
int runCases(int argc, char** argv, const std::function<void(const Args&, int, Rng&)>& f);
}
namespace rv { struct Quiet { std::stringstream s; std::streambuf* old; Quiet() { old = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(old); } }; }
#endif
