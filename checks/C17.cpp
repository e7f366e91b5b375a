// C17: every step equals the documented method, along any history and option set.
// Differential check: before each step the state is read from the code under test, the reference model computes that
// step from it by brute force, and everything observable after the step is compared. Nothing is carried over in the
// model between steps, so state remembered by the implementation shows up as a difference.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	SceneOpt o; o.maxN = V_DIM == 3 ? 45 : 40;
	Scene sc = genScene(c.s, o);
	describe(c, sc);
	sut::Sim sim(sc.q, sc.fn());
	const std::size_t cut = c.s.chance(30) ? c.s.upto(sc.s.size()) : sc.s.size();
	sim.add(State(sc.s.begin(), sc.s.begin() + static_cast<long>(cut)));
	const int steps = c.s.integer(1, 4);
	bool informative = false; int done = 0;
	try
	{
		for(int k = 0; k < steps; k++)
		{
			if(k == 1 && cut < sc.s.size()) sim.add(State(sc.s.begin() + static_cast<long>(cut), sc.s.end()));
			const double dt = sc.dt * (c.s.chance(30) ? c.s.real(0.3, 1.0) : 1.0);
			// keep the step within the CFL limits the method assumes
			const State before = sim.state();
			if(topSpeed(before) * dt > sc.q.courant * sc.q.l0) break;
			compareStep(c, sim, sc, dt, CMP_ALL);
			informative |= hasFluid(before) && (before.size() > 1);
			done++;
		}
	}
	catch(const pbt::Discard& d) { if(done == 0) throw; c.label("history cut short: " + d.why); }
	c.label(done > 1 ? "steps>1" : "steps<=1");
	c.nontrivial = informative;
}
PBT_MAIN("C17", prop)
