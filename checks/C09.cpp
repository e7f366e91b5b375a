// C09: gravity and viscosity act as specified and conserve momentum.
// (a) any scene: one step against the reference model; (b) scenes too sparse for pressure or repulsion: velocities and
// positions follow from gravity and viscosity alone, momentum balance, common velocity, irrelevance of what must not matter.
#include "compare.hpp"

static V sum(const State& s, std::size_t n) { V r{}; for(std::size_t i = 0; i < n; i++) for(int a = 0; a < V_DIM; a++) r[a] += s[i].u[a]; return r; }

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	if(s.chance(35))
	{
		SceneOpt o; o.maxN = V_DIM == 3 ? 40 : 36;
		Scene sc = genScene(s, o);
		sc.q.nu = s.logreal(0.003, 0.3) * sc.q.l0 * sc.q.l0 / sc.dt;
		c.label("any scene"); describe(c, sc);
		sut::Sim sim(sc.q, sc.fn()); sim.add(sc.s);
		const int steps = s.integer(1, 2); int done = 0; bool fl = false;
		try { for(int k = 0; k < steps; k++) { Outcome oc = compareStep(c, sim, sc, sc.dt, CMP_MOTION); done++; fl |= hasFluid(oc.before) && oc.before.size() > 1; } }
		catch(const pbt::Discard& d) { if(done == 0) throw; }
		c.nontrivial = fl && done > 0;
		return;
	}
	// sparse: density stays below every threshold, no pair gets close
	SceneOpt o; o.maxN = V_DIM == 3 ? 30 : 30; o.minDist = 1.02; o.spacingLo = 1.12; o.spacingHi = 1.7; o.pressure = false; o.speed = 0.25; o.ratioLo = 1.8;
	const bool pure = s.chance(40); // fluid only
	if(pure) { o.walls = o.dummies = o.disabled = false; }
	Scene sc = genScene(s, o);
	sc.q.nu = s.chance(85) ? s.logreal(0.003, 0.5) * sc.q.l0 * sc.q.l0 / sc.dt : 0.0;
	sc.q.g = s.chance(75) ? sc.q.courant * sc.q.l0 / (sc.dt * sc.dt) * s.real(0.001, 0.2) : 0.0;
	if(s.chance(10))
	{
		// far more viscous, with speeds for which a step is still a small one
		const double f = s.logreal(1, 1e4); sc.q.nu *= f; sc.q.g /= f;
		for(auto& p : sc.s) for(int a = 0; a < V_DIM; a++) p.u[a] *= 0.1 / f;
		for(auto& v : sc.law.vel) for(int a = 0; a < V_DIM; a++) v[a] *= 0.1 / f;
		c.label("very viscous");
	}
	for(auto& v : sc.law.vel) for(int a = 0; a < V_DIM; a++) v[a] *= 0.5;
	for(auto& p : sc.s) if(p.type == DUMMY || p.type == DISABLED) p.p = s.pick({0.0, 1e3, 1e7});
	const bool uniform = pure && s.chance(25);
	V w{}; if(uniform) { for(int a = 0; a < V_DIM; a++) w[a] = s.sym(3) * sc.q.l0 / sc.dt; for(auto& p : sc.s) p.u = w; }
	c.label(pure ? "sparse, fluid only" : "sparse"); describe(c, sc);
	if(!hasFluid(sc.s)) c.discard("no fluid");
	const auto k = ref::constants(sc.q, ref::here());
	const auto fn = sc.fn();
	ref::Step r(sc.s, sc.q, 0, sc.dt, fn);
	if(!r.ambiguous.empty()) c.discard(r.ambiguous);
	for(std::size_t i = 0; i < sc.s.size(); i++) if(r.active(i))
	{
		if(!(r.nw0[i] < (V_SPP ? 1 : 0.79) * k.n0 * 0.999 && r.nw1[i] < (V_SPP ? 1 : 0.79) * k.n0 * 0.999)) c.discard("too dense for a pressure-free step");
		for(std::size_t j = 0; j < sc.s.size(); j++) if(j != i && r.enabled(j) && ref::dist(r.x1[i], r.x1[j], V_DIM) < (1 - sc.q.courant) * sc.q.l0 * 1.001) c.discard("pair close enough for repulsion");
	}
	const auto run = [&](const State& st, const std::function<V(std::size_t, double, double)>& law) -> State
	{
		sut::Sim sim(sc.q, law); sim.add(st);
		const auto err = tryStep(sim, sc.dt);
		if(!err.empty()) { if(err.find("block") != std::string::npos) c.discard("overfull block"); c.fail("a step without pressure raised an error: " + err); }
		return sim.state();
	};
	const State a = run(sc.s, fn);
	// with explicit pressure the rounding of the reference density may leave a pressure of that size
	const double speck = V_EXPLICIT ? 1e-10 * sc.q.c * sc.q.c * sc.dt / sc.q.l0 : 0;
	double scale = 0; V total{}; std::size_t fluids = 0; bool vis = false;
	for(std::size_t i = 0; i < a.size(); i++)
	{
		REQUIRE(c, !r.active(i) || near(a[i].p, 0, V_EXPLICIT ? 1e-12 * sc.q.c * sc.q.c * sc.q.rho : 0), "pressure" + at(i) + " is " + num(a[i].p) + " although nothing is compressed");
		if(r.in[i].type != FLUID) continue;
		fluids++;
		const double us = ref::dist(sc.s[i].u, V{}, V_DIM) + r.du1s[i], xs = std::sqrt(ref::dot(r.x1[i], r.x1[i], V_DIM)) + sc.q.l0;
		REQUIRE(c, nearV(a[i].u, r.u1[i], 1e-9 * us + speck), "velocity" + at(i) + ": " + show(a[i].u) + " instead of " + show(r.u1[i]));
		V x{}; for(int b = 0; b < V_DIM; b++) x[b] = sc.s[i].x[b] + sc.dt * a[i].u[b];
		REQUIRE(c, nearV(a[i].x, x, 1e-14 * xs + (1e-12 * us + speck) * sc.dt), "position" + at(i) + ": " + show(a[i].x) + " instead of " + show(x) + " = old position + step x new velocity");
		scale += us;
		if(r.du1s[i] > sc.q.g * sc.dt * 1.0000001) vis = true;
		V g{};
#if V_CENTRAL
		const double d = std::sqrt(ref::dot(sc.s[i].x, sc.s[i].x, V_DIM));
		if(d >= 0.01 * sc.q.l0) for(int b = 0; b < V_DIM; b++) g[b] = -sc.q.g * sc.s[i].x[b] / d;
#else
		g[V_DIM - 1] = -sc.q.g;
#endif
		for(int b = 0; b < V_DIM; b++) total[b] += g[b] * sc.dt;
		if(uniform)
		{
			V u{}; for(int b = 0; b < V_DIM; b++) u[b] = w[b] + g[b] * sc.dt;
			REQUIRE(c, nearV(a[i].u, u, 1e-12 * us + speck), "viscosity acts in a uniform flow" + at(i) + ": " + show(a[i].u) + " instead of " + show(u));
			c.label("uniform flow");
		}
	}
	if(vis) c.label("viscous forces acted"); if(sc.q.g > 0) c.label("gravity acted");
	if(pure && fluids == a.size())
	{
		const V m0 = sum(sc.s, a.size()), m1 = sum(a, a.size());
		V want{}; for(int b = 0; b < V_DIM; b++) want[b] = m0[b] + total[b];
		REQUIRE(c, nearV(m1, want, 1e-10 * scale + speck * fluids), "momentum of an all-fluid system is " + show(m1) + " instead of " + show(want));
		c.label("momentum balance");
	}
	// relations
	const int rel = s.integer(0, 2);
	State b0 = sc.s; V shift{};
	auto law = fn;
	if(rel == 0)
	{
		for(int d = 0; d < V_DIM; d++) shift[d] = s.sym(5) * sc.q.l0 / sc.dt;
		for(auto& p : b0) for(int d = 0; d < V_DIM; d++) p.u[d] += shift[d];
		const double dt = sc.dt;
		law = [fn, shift, dt](std::size_t i, double t, double h) { V x = fn(i, t, h); for(int d = 0; d < V_DIM; d++) x[d] += shift[d] * dt; return x; };
	}
	else if(rel == 1)
	{
		for(auto& p : b0) if(p.type == DUMMY || p.type == DISABLED) { for(int d = 0; d < V_DIM; d++) p.u[d] = s.sym(1e3) * sc.q.l0 / sc.dt; }
	}
	else for(auto& p : b0) { p.n = s.real(0, 1e3); if(p.type == DUMMY || p.type == DISABLED) p.p = s.real(0, 1e9); }
	const State b = run(b0, law);
	for(std::size_t i = 0; i < a.size(); i++)
	{
		if(r.in[i].type != FLUID) continue;
		const double us = ref::dist(b0[i].u, V{}, V_DIM) + ref::dist(sc.s[i].u, V{}, V_DIM) + r.du1s[i] * (1 + (rel == 0 ? ref::dist(shift, V{}, V_DIM) / (1e-300 + ref::dist(sc.s[i].u, V{}, V_DIM)) : 0));
		double big = us; if(rel == 0) { big = 0; for(auto& p : b0) big = std::max(big, ref::dist(p.u, V{}, V_DIM)); big = big * (1 + 60 * sc.q.nu * sc.dt / (sc.q.l0 * sc.q.l0)) + us; if(!std::isfinite(big)) continue; }
		V want{}; for(int d = 0; d < V_DIM; d++) want[d] = a[i].u[d] + shift[d];
		REQUIRE(c, nearV(b[i].u, want, 1e-9 * std::min(big, us) + 2 * speck), std::string("velocity") + at(i) + (rel == 0 ? " with a common velocity added" : rel == 1 ? " with other dummy velocities" : " with other stored densities and dummy pressures") + ": " + show(b[i].u) + " instead of " + show(want));
	}
	c.label(rel == 0 ? "common velocity" : rel == 1 ? "dummy velocities" : "stored values");
	c.nontrivial = fluids > 0 && (vis || sc.q.g > 0);
}
PBT_MAIN("C09", prop)
