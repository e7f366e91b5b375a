// C13: pressures are non-negative and depend only on the current state.
// Pressures after steps against the exact solution of the reference equation; the same step with other stored pressures,
// and with a fresh space; particles with nothing in range.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 40 : 34; o.spacingLo = 0.75; o.minDist = 0.45;
	Scene sc = genScene(s, o);
	if(s.chance(60)) sc.q.eps = s.pick({1e-11, 1e-10, 1e-9});
	const int lonely = s.chance(25) ? s.integer(1, 3) : 0;
	std::vector<std::size_t> lone;
	for(int i = 0; i < lonely; i++)
	{
		Pt p; p.type = s.pick({FLUID, WALL}); for(int a = 0; a < V_DIM; a++) { p.x[a] = sc.q.maxX[a] + 6 * sc.q.l0; sc.q.maxX[a] = p.x[a] + sc.q.l0; p.u[a] = s.sym(0.2) * sc.q.courant * sc.q.l0 / sc.dt; }
		p.p = s.pick({0.0, 10.0, 1e5});
		lone.push_back(sc.s.size()); sc.s.push_back(p); sc.law.base.push_back(p.x); sc.law.vel.push_back(V{});
	}
	describe(c, sc);
	sut::Sim sim(sc.q, sc.fn()); sim.add(sc.s);
	const int steps = s.integer(1, 3); int done = 0; bool pos = false, clipped = false; std::string why;
	for(int k = 0; k < steps; k++)
	{
		const State before = sim.state();
		const double t0 = sim.t();
		std::unique_ptr<Outcome> oc;
		try { oc = std::make_unique<Outcome>(compareStep(c, sim, sc, sc.dt, CMP_PRESSURE | CMP_TYPE)); }
		catch(const pbt::Discard& d) { why = d.why; break; }
		const auto& r = oc->r; const State& a = oc->after;
		done++;
		for(std::size_t i = 0; i < a.size(); i++) if(r.active(i))
		{
			pos |= a[i].p > 0; clipped |= !r.raw.empty() && r.raw[i] < 0;
			REQUIRE(c, std::isfinite(a[i].p) && a[i].p >= 0, "pressure" + at(i) + " is " + num(a[i].p));
		}
		// those with nothing at all in range
		for(std::size_t i = 0; i < a.size(); i++) if(r.active(i))
		{
			bool alone = true;
			for(std::size_t j = 0; j < a.size(); j++) if(j != i && r.enabled(j) && ref::dist(r.x1[i], r.x1[j], V_DIM) < r.k.re * (1 + 1e-6)) alone = false;
			if(alone) { REQUIRE(c, near(a[i].p, 0, V_EXPLICIT ? 1e-12 * sc.q.c * sc.q.c * sc.q.rho : 0), "a particle with nothing in range has pressure " + num(a[i].p) + at(i)); c.label("nothing in range"); }
		}
		// other stored pressures
		if(s.chance(70))
		{
			State other = before; const int how = s.integer(0, 3);
			double pm = 1; for(auto& p : a) pm = std::max(pm, p.p);
			for(std::size_t i = 0; i < other.size(); i++) if(other[i].type == FLUID || other[i].type == WALL)
				other[i].p = how == 0 ? 0.0 : how == 1 ? pm * s.real(0, 2) : how == 2 ? a[i].p : pm * 100;
			const auto fn = sc.fn();
			sut::Sim b(sc.q, [&](std::size_t i, double t, double h) { return fn(i, t + t0, h); }); b.add(other);
			const auto err = tryStep(b, sc.dt);
			if(!err.empty()) { REQUIRE(c, V_EXPLICIT || !r.mustSolve(), "with other stored pressures the step raised an error: " + err); }
			else
			{
				const State w = b.state();
				const double tol = V_EXPLICIT ? 1e-10 * sc.q.c * sc.q.c * sc.q.rho : pressureTol(r, before, sc.q.eps) + pressureTol(r, other, sc.q.eps);
				double m = 0; for(double v : r.P) m = std::max(m, v);
				if(tol < 1e-4 * m) c.label("stored pressures: decided tightly");
				for(std::size_t i = 0; i < a.size(); i++) if(r.active(i))
					REQUIRE(c, near(w[i].p, a[i].p, tol + 1e-12 * m), "with other stored pressures the pressure" + at(i) + " is " + num(w[i].p) + " instead of " + num(a[i].p) + " (tolerance " + num(tol) + ")");
				c.label("other stored pressures");
			}
		}
	}
	if(done == 0) c.discard(why);
	if(clipped) c.label("negative solution set to zero");
	c.nontrivial = pos;
}
PBT_MAIN("C13", prop)
