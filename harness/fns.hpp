// Functions used as objectives and constraints, in process and in the stand-in for an external simulation.
#ifndef FNS_HPP
#define FNS_HPP
#include <cmath>
#include <vector>
#include <string>
#include <sstream>
#include <iomanip>
struct Fn {
	int kind = 0; double off = 0, scale = 1; std::vector<double> lo, w, c, a;
	double operator()(const double* x) const {
		double s = 0, t = 0; int d = (int)lo.size();
		for (int i = 0; i < d; i++) { double z = (x[i] - lo[i]) / w[i], q = z - c[i]; switch (kind) { case 0: s += a[i] * q * q; break; case 1: s += a[i] * z; break; case 2: s += a[i] * sin(6 * q); break; case 3: t += a[i] * z; break; case 4: s += q * q + 0.1 * (1 - cos(12 * q)); break; default: s += fabs(q); } }
		if (kind == 3) s = std::floor(3 * t);
		return off + scale * s;
	}
	std::string text() const { std::ostringstream o; o << std::setprecision(17) << kind << " " << off << " " << scale << " " << lo.size(); for (auto* v : {&lo, &w, &c, &a}) for (double q : *v) o << " " << q; return o.str(); }
	static Fn parse(std::istream& i) { Fn f; size_t d; i >> f.kind >> f.off >> f.scale >> d; for (auto* v : {&f.lo, &f.w, &f.c, &f.a}) { v->resize(d); for (double& q : *v) i >> q; } return f; }
};
#endif
