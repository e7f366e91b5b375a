// C08: the time step obeys the CFL limits and the clock adds it up.
// Histories of automatic steps, given steps and additions (also to empty spaces) against the formula and the running sum.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 20 : 16; o.speed = 0.35;
	Scene sc = genScene(s, o);
	if(s.chance(15)) { sc.s.clear(); sc.law = Law(); }
	// speeds over a wide range (single particles may be much faster or all at rest)
	const double unit = sc.q.courant * sc.q.l0 / sc.dt;
	const int mode = s.integer(0, 4); const bool extreme = s.chance(30);
	for(auto& p : sc.s)
	{
		double f = 1;
		if(mode == 0) f = 0; else if(mode == 1) f = extreme ? s.logreal(1e-9, 1) : s.logreal(0.01, 30); else if(mode == 2) f = s.chance(20) ? s.logreal(1, extreme ? 1e9 : 1e3) : 1; else if(mode == 3 && p.type == FLUID) f = 0;
		for(int a = 0; a < V_DIM; a++) p.u[a] *= f;
	}
	if(mode == 3) for(std::size_t i = 0; i < sc.law.vel.size(); i++) for(int a = 0; a < V_DIM; a++) sc.law.vel[i][a] *= s.real(1, 8);
	if(s.chance(30)) sc.q.g *= s.logreal(1, 100);
	if(s.chance(30)) sc.q.maxDt *= extreme ? s.logreal(1e-6, 1e6) : s.logreal(0.1, 10);
	// only the clock is looked at: no solver failures wanted
	sc.q.eps = 1e-4;
	describe(c, sc);
	sut::Sim sim(sc.q, sc.fn());
	REQUIRE(c, sim.t() == 0, "the clock does not start at 0");
	const std::size_t cut = s.chance(30) ? s.upto(sc.s.size()) : sc.s.size();
	sim.add(State(sc.s.begin(), sc.s.begin() + static_cast<long>(cut)));
	const auto k = ref::constants(sc.q, ref::here());
	double t = 0; int autos = 0, limited = 0, empty = 0;
	const int steps = s.integer(1, 6); std::string trace;
	for(int i = 0; i < steps; i++)
	{
		if(i == 2 && cut < sc.s.size()) sim.add(State(sc.s.begin() + static_cast<long>(cut), sc.s.end()));
		const State before = sim.state();
		const double top = topSpeed(before);
		if(!std::isfinite(top)) break;
		const bool given = s.chance(25);
		double want, got0 = 0;
		std::string err;
		if(given) { want = sc.dt * s.logreal(0.05, 2); err = tryStep(sim, want); }
		else { want = top == 0 ? k.maxDt : std::min(k.maxDt, k.maxDx / top); err = tryStep(sim, 0); autos++; if(want < k.maxDt) limited++; }
		if(!err.empty()) { if(i == 0) c.discard("step failed"); break; }
		(void)got0;
		trace += (given ? "given " : "auto ") + num(want) + "; ";
		REQUIRE(c, near(sim.dt(), want, 1e-13 * want), std::string(given ? "given" : "automatic") + " step " + num(i) + " is " + num(sim.dt()) + " instead of " + num(want) + " (largest speed " + num(top) + ", limit " + num(k.maxDx) + ", maximum step " + num(k.maxDt) + ")");
		t += want;
		REQUIRE(c, near(sim.t(), t, 1e-13 * t), "after step " + num(i) + " the clock shows " + num(sim.t()) + " instead of " + num(t));
		if(!given) REQUIRE(c, top * sim.dt() <= k.maxDx * (1 + 1e-12), "a particle entered an automatic step fast enough to travel " + num(top * sim.dt() / k.maxDx) + " limits");
		if(before.empty()) empty++;
		const State after = sim.state();
		REQUIRE(c, after.size() == before.size(), "number of particles changed");
		// the step was really taken with that size: walls end where the law puts them at the new time
		for(std::size_t j = 0; j < after.size(); j++) if(after[j].type == WALL || after[j].type == DUMMY)
		{
			const V x = sc.law(j, t, want);
			REQUIRE(c, nearV(after[j].x, x, 1e-11 * (sc.q.l0 + std::sqrt(ref::dot(x, x, V_DIM)))), "wall" + at(j) + " is at " + show(after[j].x) + " instead of " + show(x));
			REQUIRE(c, nearV(after[j].u, [&] { V u{}; for(int a = 0; a < V_DIM; a++) u[a] = (x[a] - before[j].x[a]) / want; return u; }(), 1e-11 * (sc.q.l0 + std::sqrt(ref::dot(x, x, V_DIM))) / want), "velocity of wall" + at(j));
		}
	}
	c.note("steps", trace);
	if(limited) c.label("CFL limit acted"); if(autos > limited) c.label("maximum step taken"); if(empty) c.label("empty space");
	c.nontrivial = autos > 0;
}
PBT_MAIN("C08", prop)
