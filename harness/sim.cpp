// Stand-in for an external simulation: <argv[0]>.cfg says what to read, compute, write and how to fail; every call is logged.
#include "fns.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <unistd.h>
#include <signal.h>
#include <sys/stat.h>
using std::string;
static string slurp(const string& f, bool& ok) { std::ifstream i(f, std::ios::binary); ok = (bool)i; std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& s) { FILE* o = fopen(f.c_str(), "w"); if (!o) return; fwrite(s.data(), 1, s.size(), o); fclose(o); }
int main(int argc, char** argv) {
	string me = argv[0]; if (argc > 1) { me = argv[1]; if (access(argv[1], R_OK)) return 2; } std::ifstream c(me + ".cfg"); if (!c) { fprintf(stderr, "sim: no %s.cfg\n", me.c_str()); return 77; }
	string id, dv, out, log, fault; int dim, faultCall, style; c >> id >> dv >> out >> log >> dim >> faultCall >> fault >> style; Fn f = Fn::parse(c);
	bool ok; string count = slurp(me + ".n", ok); int call = ok ? atoi(count.c_str()) : 0; spit(me + ".n", std::to_string(call + 1));
	string text = slurp(dv, ok); bool stale; slurp(out, stale); std::vector<double> x; std::vector<string> lines; std::stringstream ss(text); string l; bool good = ok; while (std::getline(ss, l)) { lines.push_back(l); char* e; x.push_back(strtod(l.c_str(), &e)); if (e == l.c_str() || *e) good = false; }
	std::ostringstream r; r << id << " " << call << " " << (good && (int)x.size() == dim && !text.empty() && text.back() == '\n') << " " << stale; for (auto& q : lines) { r << " "; for (char ch : q) r << (isspace((unsigned char)ch) ? '_' : ch); }
	x.resize(dim); double v = f(x.data()); char b[64]; snprintf(b, sizeof b, "%.17g", v);
	bool fail = call == faultCall; r << " | " << b << " " << (fail ? fault : "ok") << "\n";
	{ FILE* o = fopen(log.c_str(), "a"); string t = r.str(); fwrite(t.data(), 1, t.size(), o); fclose(o); }
	string w; switch (style % 6) { case 0: w = string(b) + "\n"; break; case 1: w = b; break; case 2: w = "\n  " + string(b) + "\n"; break; case 3: w = string(b) + "\n17.5\n3\n"; break; case 4: w = string(b) + " objective\n"; break; default: snprintf(b, sizeof b, "%.16e", v); w = string(b) + "\n"; }
	if (!fail) { spit(out, w); return 0; }
	if (fault == "nothing") return 0;
	if (fault == "empty") { spit(out, ""); return 0; }
	if (fault == "blank") { spit(out, "\n  \n"); return 0; }
	if (fault == "text") { spit(out, "diverged " + w); return 0; }
	if (fault == "sign") { spit(out, "-\n"); return 0; }
	if (fault == "huge") { spit(out, "1e999\n"); return 0; }
	if (fault == "nan") { spit(out, "nan\n"); return 0; }
	if (fault == "directory") { mkdir(out.c_str(), 0755); return 0; }
	if (fault == "partial") { spit(out, "\n"); return 3; }
	spit(out, w);
	if (fault.compare(0, 4, "exit") == 0) return atoi(fault.c_str() + 4);
	if (fault.compare(0, 6, "signal") == 0) { kill(getpid(), atoi(fault.c_str() + 6)); for (;;) pause(); }
	if (fault == "vanish" || (fault == "unexec" && argc > 1)) { unlink(me.c_str()); return 0; }         // this call is fine, the next cannot start
	if (fault == "unexec") { chmod(argv[0], 0644); return 0; }
	return 0;
}
