// Comparison of a step of the code under test with the reference model, stage by stage.
#ifndef COMPARE_HPP
#define COMPARE_HPP
#include "scene.hpp"

enum : unsigned { CMP_TYPE = 1, CMP_CLOCK = 2, CMP_DENSITY = 4, CMP_PPE = 8, CMP_PRESSURE = 16, CMP_MOTION = 32, CMP_ALL = 63 };

struct Outcome
{
	ref::Step r;
	State before, after;
	std::string error;       // message of the exception, if any
	bool pressureActed = false, tight = false;
	Outcome(ref::Step&& s) : r(std::move(s)) {}
};

// bound on the difference between the code's pressures and the exact solution
static double pressureTol(const ref::Step& r, const State& before, double eps)
{
	const std::size_t n = before.size();
	double r0 = 0, bsum = 0, xm = 0, pmax = 0;
	for(double v : r.P) pmax = std::max(pmax, std::abs(v));
	for(std::size_t i = 0; i < n; i++)
	{
		double v = r.b[i];
		for(std::size_t j = 0; j < n; j++) v -= r.A[i * n + j] * (r.identity[j] ? 0.0 : before[j].p);
		if(r.identity[i]) v = 0;
		r0 += v * v; bsum = std::max(bsum, r.bs[i]);
		for(std::size_t j = 0; j < n; j++) xm = std::max(xm, std::abs(r.A[i * n + j] * before[j].p) + std::abs(r.A[i * n + j] * r.raw[j]));
	}
	return 2 * r.normInv * (10 * eps * std::sqrt(r0) + 1e-10 * (bsum + xm)) + 1e-10 * pmax;
}

static void checkDensity(pbt::Case& c, const ref::Step& r, const State& before, const State& after)
{
	for(std::size_t i = 0; i < before.size(); i++)
	{
		if(r.in[i].type == DISABLED || r.in[i].type == DUMMY)
		{
			REQUIRE(c, after[i].n == before[i].n, "stored density of a " + std::string(r.in[i].type == DUMMY ? "dummy" : "disabled") + " particle changed" + at(i));
			continue;
		}
		REQUIRE(c, near(after[i].n, r.n1v[i], 1e-8 * (r.nw1[i] + r.k.n0)), "density" + at(i) + ": " + num(after[i].n) + " instead of " + num(r.n1v[i]));
	}
}

#if !V_EXPLICIT
// the assembled system against the reference one
static void checkPpe(pbt::Case& c, sut::Sim& sim, const ref::Step& r)
{
	const std::size_t n = r.in.size();
	REQUIRE(c, sim.ppeSize() == n, "the pressure equation has " + num(sim.ppeSize()) + " unknowns instead of " + num(n));
	const auto A = sim.matrix();
	for(std::size_t i = 0; i < n; i++)
	{
		const double d = A[i * n + i];
		if(r.identity[i])
		{
			for(std::size_t j = 0; j < n; j++) if(j != i) REQUIRE(c, A[i * n + j] == 0, "the equation" + at(i) + " should be p = 0 but refers to particle " + num(j));
			REQUIRE(c, d != 0 && std::isfinite(d), "the equation" + at(i) + " should be p = 0 but has diagonal " + num(d));
			REQUIRE(c, sim.b(i) == 0, "the equation" + at(i) + " should be p = 0 but has right-hand side " + num(sim.b(i)));
			continue;
		}
		double scale = std::abs(r.A[i * n + i]);
		for(std::size_t j = 0; j < n; j++)
		{
			const double e = r.A[i * n + j];
			// each coefficient to its own size: a wrong small one matters as much as a wrong large one
			const double tol = i == j ? 1e-9 * scale : 1e-8 * std::abs(e) + 1e-9 * std::abs(e == 0 ? 0.0 : scale * 1e-3);
			REQUIRE(c, near(A[i * n + j], e, tol), "coefficient of particle " + num(j) + " in the equation" + at(i) + ": " + num(A[i * n + j]) + " instead of " + num(e));
			REQUIRE(c, near(A[i * n + j], A[j * n + i], 1e-9 * scale), "the matrix is not symmetric at " + num(i) + ", " + num(j));
		}
		REQUIRE(c, near(sim.b(i), r.b[i], 1e-8 * r.bs[i]), "right-hand side" + at(i) + ": " + num(sim.b(i)) + " instead of " + num(r.b[i]));
	}
}
#endif

static void checkPressure(pbt::Case& c, const ref::Step& r, const State& before, const State& after, const Params& q, bool* tight = nullptr)
{
	double pmax = 0; for(double v : r.P) pmax = std::max(pmax, std::abs(v));
	const double tol = V_EXPLICIT ? 0 : pressureTol(r, before, q.eps);
	for(std::size_t i = 0; i < before.size(); i++)
	{
		if(!r.active(i))
		{
			REQUIRE(c, after[i].p == before[i].p, "pressure of a " + std::string(r.in[i].type == DUMMY ? "dummy" : "disabled") + " particle changed" + at(i));
			continue;
		}
		REQUIRE(c, after[i].p >= 0, "negative pressure" + at(i) + ": " + num(after[i].p));
		const double t = V_EXPLICIT ? 1e-8 * q.c * q.c * q.rho * (1 + r.n1v[i] / r.k.n0) : r.identity[i] ? 0 : tol;
		REQUIRE(c, near(after[i].p, r.P[i], t), "pressure" + at(i) + ": " + num(after[i].p) + " instead of " + num(r.P[i]) + " (tolerance " + num(t) + ")");
	}
	if(!V_EXPLICIT && pmax > 0 && tol < 1e-4 * pmax) { c.label("pressure decided tightly"); if(tight) *tight = true; }
	if(pmax > 0) c.label("positive pressure");
}

// is particle i within reach of the repulsion of a particle whose motion is not compared?
static bool nearDegenerate(const ref::Step& r, const State& after, std::size_t i, double l0)
{
	if(!r.m.DS || r.degenerate.empty()) return false;
	for(std::size_t j = 0; j < after.size(); j++)
		if(j != i && r.degenerate[j] && (r.closeTo[i] || ref::dist(after[j].x, after[i].x, V_DIM) < 3 * l0 || ref::dist(after[j].x, r.x3[i], V_DIM) < 3 * l0)) return true;
	return false;
}

// positions and velocities, given the pressures the code itself ended with
static bool checkMotion(pbt::Case& c, const ref::Step& r, const State& before, const State& after, const Scene& sc, double dt)
{
	const double l = sc.q.l0; bool anyP = false;
	for(std::size_t i = 0; i < before.size(); i++)
	{
		REQUIRE(c, after[i].type == r.in[i].type, "type" + at(i) + " is " + num(after[i].type) + " instead of " + num(r.in[i].type));
		if(r.in[i].type == DISABLED)
		{
			for(int a = 0; a < V_DIM; a++) REQUIRE(c, after[i].x[a] == before[i].x[a] && after[i].u[a] == before[i].u[a], "disabled particle moved" + at(i));
			continue;
		}
		const double xs = std::sqrt(ref::dot(r.x1[i], r.x1[i], V_DIM)) + l;
		if(!r.degenerate.empty() && r.degenerate[i]) { c.label("degenerate gradient matrix skipped"); continue; }
		if(r.in[i].type == FLUID) anyP |= r.du2s[i] > 0;
		if(nearDegenerate(r, after, i, l)) continue;
		const bool wall = r.in[i].type != FLUID;
		const double us = ref::dist(before[i].u, V{}, V_DIM) + r.du1s[i] + r.du2s[i] + r.du3s[i];
		const double ut = 1e-8 * us + 1e-13 * xs / dt;
		REQUIRE(c, nearV(after[i].u, r.u3[i], wall ? 1e-12 * xs / dt : ut), "velocity" + at(i) + ": " + show(after[i].u) + " instead of " + show(r.u3[i]) + " (tolerance " + num(ut) + ")");
		REQUIRE(c, nearV(after[i].x, r.x3[i], wall ? 1e-15 * xs : 1e-8 * us * dt + 1e-13 * xs), "position" + at(i) + ": " + show(after[i].x) + " instead of " + show(r.x3[i]));
	}
	if(r.close) c.label("repulsion acted");
	if(anyP) c.label("pressure gradient acted");
	return anyP;
}

// One step of the code under test next to the reference one; compares what `what` names. Discards undecidable steps.
// auto step size when dt <= 0 (then the code's own choice is used for the reference)
static Outcome compareStep(pbt::Case& c, sut::Sim& sim, const Scene& sc, double dt, unsigned what)
{
	const State before = sim.state();
	const double t0 = sim.t();
	ref::Step r(before, sc.q, t0, dt, sc.fn());
	if(!r.ambiguous.empty()) c.discard(r.ambiguous);
	r.solve();
	c.label(r.cond < 10 ? "cond<10" : r.cond < 30 ? "cond<30": r.cond < 100 ? "cond<100" : r.cond < 1000 ? "cond<1000" : "cond>=1000");
	Outcome o(std::move(r));
	o.before = before;
	o.error = tryStep(sim, dt);
	ref::Step& s = o.r;
	const std::string& err = o.error;
	if(err.find("block") != std::string::npos) c.discard("overfull block");
	if(s.skin) c.discard("pair outside the searched range came within reach");
#if !V_EXPLICIT
	if((what & CMP_PPE) && !before.empty()) checkPpe(c, sim, s);
#endif
	o.after = sim.state();
	REQUIRE(c, o.after.size() == before.size(), "number of particles changed");
	if(what & CMP_DENSITY) checkDensity(c, s, before, o.after); // densities are there even if solving failed
	if(!V_EXPLICIT && !s.solvable) c.discard("singular pressure equation");
	if(!err.empty())
	{
		if(!s.mustSolve()) c.discard("conjugate gradients did not converge");
		c.fail("step raised an error on a well-conditioned scene: " + err);
	}
	if(what & CMP_CLOCK) REQUIRE(c, near(sim.t(), t0 + dt, 1e-14 * (std::abs(t0) + dt)), "clock: " + num(sim.t()) + " instead of " + num(t0 + dt));
	if(what & CMP_TYPE) for(std::size_t i = 0; i < before.size(); i++)
		REQUIRE(c, o.after[i].type == s.in[i].type, "type" + at(i) + " is " + num(o.after[i].type) + " instead of " + num(s.in[i].type));
	if(what & CMP_PRESSURE) checkPressure(c, s, before, o.after, sc.q, &o.tight);
	std::vector<double> p; for(auto& a : o.after) p.push_back(a.p);
	s.gradient(p, s.x1, s.u1); s.stabilise();
	if(what & CMP_MOTION)
	{
		if(!s.ambiguous.empty()) c.discard(s.ambiguous);
		if(s.skin) c.discard("pair outside the searched range came within reach");
		o.pressureActed = checkMotion(c, s, before, o.after, sc, dt);
	}
	return o;
}

// largest speed of an enabled particle
static double topSpeed(const State& s)
{
	double vm = 0; for(auto& p : s) if(p.type != DISABLED) vm = std::max(vm, ref::dist(p.u, V{}, V_DIM));
	return vm;
}
static bool hasFluid(const State& s) { for(auto& p : s) if(p.type == FLUID) return true; return false; }
#endif
