// C10: walls and dummies go exactly where they are told.
// Every call of the caller's wall law and of its per-step preparation is recorded over histories with given and
// automatic steps, additions and departures; positions must be exactly what the law returned.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 26 : 24;
	Scene sc = genScene(s, o);
	for(auto& p : sc.s) if(p.type == FLUID && s.chance(35)) p.type = s.pick({WALL, DUMMY});
	sc.q.eps = 1e-4; // the solver is not the point
	const double unit = sc.q.courant * sc.q.l0 / sc.dt;
	// a law that depends on everything it is given
	const std::size_t N = sc.s.size() + 12;
	const int kind = s.integer(0, 3);
	std::vector<V> amp(N), vel(N); std::vector<double> om(N);
	for(std::size_t i = 0; i < N; i++)
	{
		om[i] = s.real(0.1, 2) / sc.dt;
		for(int a = 0; a < V_DIM; a++) { amp[i][a] = s.sym(0.3) * unit * sc.dt; vel[i][a] = s.sym(kind == 3 ? 5 : 0.3) * unit; }
	}
	std::vector<V> base; for(auto& p : sc.s) base.push_back(p.x);
	base.resize(N);
	std::vector<V> answers(N);
	const auto fn = [&](std::size_t i, double t, double dt) -> V
	{
		V r = base.at(i);
		for(int a = 0; a < V_DIM; a++) r[a] += kind == 0 ? 0 : kind == 1 ? vel[i][a] * t : amp[i][a] * std::sin(om[i] * t) + vel[i][a] * dt;
		answers[i] = r;
		return r;
	};
	c.label(kind == 0 ? "law: at rest" : kind == 1 ? "law: moving" : kind == 2 ? "law: oscillating, uses the step" : "law: fast");
	describe(c, sc);
	sut::Sim sim(sc.q, fn); sim.hooks.record = true;
	sim.add(sc.s);
	REQUIRE(c, sim.hooks.calls.empty(), "adding particles asked for wall positions");
	const int steps = s.integer(1, 5); int done = 0; bool told = false, fluid = false;
	for(int k = 0; k < steps; k++)
	{
		if(k > 0 && s.chance(20) && sim.state().size() + 1 < N)
		{
			Pt p; p.type = s.pick({FLUID, WALL, DUMMY});
			for(int a = 0; a < V_DIM; a++) p.x[a] = sc.q.minX[a] + (sc.q.maxX[a] - sc.q.minX[a]) * s.real(0.02, 0.98);
			State now = sim.state(); const auto idx = now.size();
			if(place(now, p, 0.45 * sc.q.l0)) { base[idx] = p.x; sim.add(State{p}); c.label("added in mid-run"); }
		}
		const State before = sim.state();
		const double t0 = sim.t();
		sim.hooks.calls.clear();
		const auto err = tryStep(sim, s.chance(40) ? 0 : sc.dt * s.pick({1.0, 0.5, 0.1}));
		const State after = sim.state();
		const double t1 = sim.t(), dt = sim.dt();
		if(err.find("block") != std::string::npos) break;
		// the explicit stage has been passed even if the solver failed
		const auto& calls = sim.hooks.calls;
		std::vector<int> asked(after.size(), 0); int pres = 0;
		for(std::size_t m = 0; m < calls.size(); m++)
		{
			const auto& q = calls[m];
			REQUIRE(c, near(q.t, t1, 1e-14 * (t0 + dt)) && near(q.dt, dt, 1e-14 * dt), std::string(q.pre ? "the preparation" : "the law") + " was called with t = " + num(q.t) + ", dt = " + num(q.dt) + " in the step of size " + num(dt) + " to t = " + num(t1));
			if(q.pre) { pres++; REQUIRE(c, m == 0, "the preparation was called after the first request"); continue; }
			REQUIRE(c, q.i < after.size(), "position of particle " + num(q.i) + " of " + num(after.size()) + " was requested");
			asked[q.i]++;
		}
		REQUIRE(c, pres == 1, "the preparation was called " + num(pres) + " times in a step");
		for(std::size_t i = 0; i < after.size(); i++)
		{
			const bool wall = after[i].type == WALL || after[i].type == DUMMY;
			REQUIRE(c, asked[i] == (wall ? 1 : 0), "the position of " + std::string(after[i].type == FLUID ? "fluid" : after[i].type == DISABLED ? "disabled" : "wall or dummy") + " particle " + num(i) + " was requested " + num(asked[i]) + " times in a step");
			if(after[i].type == FLUID) fluid = true;
			if(!wall) continue;
			told = true;
			const V x = answers[i];
			double xs = sc.q.l0; for(int a = 0; a < V_DIM; a++) xs = std::max({xs, std::abs(x[a]), std::abs(before[i].x[a])});
			V u{}; for(int a = 0; a < V_DIM; a++) u[a] = (x[a] - before[i].x[a]) / dt;
			for(int a = 0; a < V_DIM; a++) REQUIRE(c, after[i].x[a] == x[a], "wall or dummy" + at(i) + " is at " + show(after[i].x) + " instead of " + show(x));
			REQUIRE(c, nearV(after[i].u, u, 4e-15 * xs / dt), "velocity of wall or dummy" + at(i) + " is " + show(after[i].u) + " instead of " + show(u));
		}
		done++;
		if(!err.empty()) { c.label("solver failed"); break; }
		if(!std::isfinite(topSpeed(after)) || topSpeed(after) * sc.dt > 1e3 * sc.q.l0) break;
	}
	if(done == 0) c.discard("overfull block");
	c.nontrivial = told && fluid;
}
PBT_MAIN("C10", prop)
