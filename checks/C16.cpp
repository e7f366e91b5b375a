// C16: gradient correction uses the true inverse of the moment matrix.
// The matrix inversion on generated matrices of all conditionings; the correction stage against brute force; and its
// exactness for linear pressure fields (variants with pressure differences).
#include "compare.hpp"

#if !V_GC
#error needs gradient correction
#endif

static constexpr std::size_t D = V_DIM;
using M = std::array<double, D * D>;
static double det(const M& m)
{
	if(D == 2) return m[0] * m[3] - m[1] * m[2];
	return m[0] * (m[4] * m[8 % (D * D)] - m[5 % (D * D)] * m[7 % (D * D)]) - m[1] * (m[3] * m[8 % (D * D)] - m[5 % (D * D)] * m[6 % (D * D)]) + m[2] * (m[3] * m[7 % (D * D)] - m[4 % (D * D)] * m[6 % (D * D)]);
}

static void matrixCase(pbt::Case& c)
{
	auto& s = c.s; M m{}; const double val = s.pick({1.0, 0.3, 0.0, 2.5});
	bool singular = false; const int kind = s.integer(0, 4); double size = 1;
	c.label("matrix"); static const char* const names[] = {"any entries", "symmetric moments", "nearly singular", "integers", "singular"};
	c.label(names[kind]);
	if(kind == 0) for(auto& a : m) a = s.sym(10);
	else if(kind == 1 || kind == 2)
	{
		// weighted moments of a neighbourhood, isotropic or almost flat
		const double flat = kind == 2 ? s.logreal(1e-5, 1e-1) : 1;
		for(int n = s.integer(static_cast<int>(D), 8); n > 0; n--)
		{
			V e{}; double r = 0; for(std::size_t a = 0; a < D; a++) { e[a] = s.sym(1) * (a == 0 ? flat : 1); r += e[a] * e[a]; }
			if(r < 1e-12) continue;
			const double w = s.real(0.05, 3);
			for(std::size_t a = 0; a < D; a++) for(std::size_t b = 0; b < D; b++) m[a * D + b] += w * e[a] * e[b] / r;
		}
	}
	else if(kind == 3) for(auto& a : m) a = s.integer(-5, 5);
	else
	{
		// singular with small integers, so that the determinant is exactly 0: one row a combination of the others
		for(auto& a : m) a = s.integer(-4, 4);
		const std::size_t z = s.upto(D - 1); int f[3]; for(auto& a : f) a = s.integer(-2, 2);
		for(std::size_t b = 0; b < D; b++) { double v = 0; for(std::size_t a = 0; a < D; a++) if(a != z) v += f[a] * m[a * D + b]; m[z * D + b] = v; }
		if(s.chance(10)) m = M{};
		if(s.chance(30)) { M t = m; for(std::size_t a = 0; a < D; a++) for(std::size_t b = 0; b < D; b++) m[a * D + b] = t[b * D + a]; }
		singular = true;
	}
	if(!singular && kind != 3) { size = s.chance(50) ? 1 : s.logreal(1e-30, 1e30); for(auto& a : m) a *= size; }
	double big = 0; for(double a : m) big = std::max(big, std::abs(a));
	const double d = det(m);
	if(kind == 3 && d == 0) singular = true;
	if(!singular && !(std::abs(d) > 1e-10 * std::pow(big, double(D)))) c.discard("too close to singular");
	std::string text; for(double a : m) text += num(a) + " "; c.note("matrix", text); c.note("value if singular", val);
	OpenMps::Detail::CorrectiveMatrix in;
	for(std::size_t a = 0; a < D; a++) for(std::size_t b = 0; b < D; b++) in(a, b) = m[a * D + b];
	const auto out = OpenMps::Detail::InvertMatrix(std::move(in), val);
	const double kappa = singular ? 1 : std::pow(big * D, double(D)) / std::abs(d);
	for(std::size_t a = 0; a < D; a++) for(std::size_t b = 0; b < D; b++)
	{
		if(singular) { REQUIRE(c, out(a, b) == (a == b ? val : 0), "the inverse of a singular matrix is not the given multiple of the identity: entry " + num(a) + "," + num(b) + " is " + num(out(a, b))); continue; }
		double l = 0, r = 0; for(std::size_t k = 0; k < D; k++) { l += m[a * D + k] * out(k, b); r += out(a, k) * m[k * D + b]; }
		const double want = a == b;
		REQUIRE(c, near(l, want, 1e-14 * kappa) && near(r, want, 1e-14 * kappa), "matrix x inverse has entry " + num(a) + "," + num(b) + " = " + num(l) + " / " + num(r) + " instead of " + num(want));
	}
	if(singular) c.label("exactly singular");
	c.nontrivial = true;
}

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	if(s.chance(40)) { matrixCase(c); return; }
	SceneOpt o; o.maxN = V_DIM == 3 ? 40 : 36; o.minDist = 0.45; o.spacingLo = 0.75; o.spacingHi = 1.1;
	if(s.chance(50)) o.dummies = false;
	Scene sc = genScene(s, o);
	c.label("correction stage"); describe(c, sc);
	const double unit = sc.q.rho * sc.q.l0 * sc.q.l0 / (sc.dt * sc.dt) * sc.q.courant * 0.1;
	const bool linear = s.chance(60);
	V slope{}; for(int a = 0; a < V_DIM; a++) slope[a] = s.sym(1) * unit / sc.q.l0;
	const double base = s.chance(50) ? unit * 3 : 0;
	for(auto& p : sc.s)
	{
		p.p = linear ? base : unit * s.real(0, 1);
		if(linear) for(int a = 0; a < V_DIM; a++) p.p += slope[a] * (p.x[a] - sc.s[0].x[a]);
	}
	sut::Sim sim(sc.q, sc.fn()); sim.add(sc.s); sim.setDt(sc.dt);
	try { sim.search(); } catch(const std::exception&) { c.discard("overfull block"); }
	sim.densities();
	const State before = sim.state();
	ref::Step r(sc.s, sc.q, 0, sc.dt, sc.fn());
	r.ambiguous.clear(); r.skin = false; r.density(r.x0, r.nw0, r.n0v); r.nw1 = r.nw0; r.n1v = r.n0v;
	std::vector<double> p; std::vector<V> u0; for(auto& a : before) { p.push_back(a.p); u0.push_back(a.u); }
	r.gradient(p, r.x0, u0);
	if(!r.ambiguous.empty()) c.discard(r.ambiguous);
	sim.gradient();
	const State a = sim.state(); bool acted = false;
	for(std::size_t i = 0; i < a.size(); i++)
	{
		if(r.in[i].type != FLUID) continue;
		if(r.degenerate[i]) { c.label("degenerate neighbourhood skipped"); continue; }
		const double us = ref::dist(u0[i], V{}, V_DIM);
		REQUIRE(c, nearV(a[i].u, r.u2[i], 1e-9 * r.du2s[i] + 1e-14 * us), "velocity" + at(i) + " after the corrected gradient: " + show(a[i].u) + " instead of " + show(r.u2[i]));
		acted |= r.du2s[i] > 0;
#if !V_MID
		// exact for linear fields: -dt/rho n/n0 slope, where the neighbourhood has full rank and neither dummies nor virtual particles
		bool plain = linear && !(V_SPP && r.nw0[i] < r.k.n0); int nb = 0;
		for(std::size_t j = 0; j < a.size(); j++) if(j != i && r.enabled(j) && ref::dist(r.x0[i], r.x0[j], V_DIM) < r.k.re) { nb++; if(r.in[j].type == DUMMY) plain = false; }
		if(plain && nb >= V_DIM)
		{
			V want{}; for(int b = 0; b < V_DIM; b++) want[b] = u0[i][b] - sc.dt / sc.q.rho * (r.n0v[i] / r.k.n0) * slope[b];
			REQUIRE(c, nearV(a[i].u, want, 1e-9 * r.du2s[i] + 1e-14 * us), "a linear pressure field is not differentiated exactly" + at(i) + ": " + show(a[i].u) + " instead of " + show(want));
			c.label("linear field differentiated exactly");
		}
#endif
	}
	c.nontrivial = acted;
}
PBT_MAIN("C16", prop)
