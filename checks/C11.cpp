// C11: the pressure equation is the documented discretisation.
// Every entry of the assembled system against brute force, over histories in which particles are added, leave and are
// reordered and solves fail, so that remains of earlier systems would show.
#include "compare.hpp"

#if V_EXPLICIT
#error no pressure equation
#endif

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 36 : 30; o.spacingLo = 0.8; o.minDist = s.pick({0.45, 0.6, 0.3});
	const bool crowd = s.chance(3);
	Scene sc = crowd ? genCrowd(s, o) : genScene(s, o);
	if(s.chance(20)) sc.q.g = 0;
	if(!crowd && s.chance(15)) // far-away single particles
		for(int i = s.integer(1, 3); i > 0; i--)
		{
			Pt p; p.type = s.pick({FLUID, WALL}); for(int a = 0; a < V_DIM; a++) { p.x[a] = sc.q.maxX[a] + i * 6 * sc.q.l0; sc.q.maxX[a] = p.x[a] + sc.q.l0; }
			p.p = s.real(0, 100);
			sc.s.push_back(p); sc.law.base.push_back(p.x); sc.law.vel.push_back(V{});
		}
	describe(c, sc);
	sut::Sim sim(sc.q, sc.fn());
	const std::size_t first = s.chance(40) ? s.upto(sc.s.size()) : sc.s.size();
	sim.add(State(sc.s.begin(), sc.s.begin() + static_cast<long>(first)));
	std::size_t have = first; int done = 0; bool coupled = false; std::string why;
	const int steps = s.integer(1, 4); std::string trace;
	for(int k = 0; k < steps; k++)
	{
		if(have < sc.s.size() && s.chance(60))
		{
			const std::size_t to = have + 1 + s.upto(sc.s.size() - have - 1);
			sim.add(State(sc.s.begin() + static_cast<long>(have), sc.s.begin() + static_cast<long>(to))); have = to; trace += "add; ";
		}
		if(k > 0 && s.chance(25))
		{
			// the caller's view of the same set in another order: swap states of particles of the same kind
			State now = sim.state();
			for(int m = 0; m < 5 && now.size() > 1; m++)
			{
				const auto i = s.upto(now.size() - 1), j = s.upto(now.size() - 1);
				if(now[i].type == FLUID && now[j].type == FLUID) std::swap(now[i], now[j]);
			}
			sim.set(now); trace += "swap; ";
		}
		// stage check: the Laplacian and sign structure, and energy of random vectors
		bool stop = false; const State before = sim.state();
		try { compareStep(c, sim, sc, sc.dt * s.pick({1.0, 0.5, 0.25}), CMP_PPE | CMP_TYPE); done++; trace += "step; "; }
		catch(const pbt::Discard& d)
		{
			why = d.why; trace += d.why + "; ";
			if(d.why == "singular pressure equation" || d.why == "conjugate gradients did not converge") { done++; c.label("went on after a failed solve"); }
			else stop = true;
		}
		if(!stop && sim.ppeSize() > 0)
		{
			const std::size_t n = sim.ppeSize(); const auto A = sim.matrix();
			const State now = sim.state();
			std::vector<char> act(n); std::vector<double> v(n);
			for(std::size_t i = 0; i < n; i++) { act[i] = A[i * n + i] < 0; v[i] = act[i] ? s.sym(1) : 0; }
			double e = 0, m = 0;
			for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < n; j++)
			{
				if(!act[i] || !act[j]) continue;
				const double t = v[i] * A[i * n + j] * v[j]; e += t; m += std::abs(t);
				if(i != j && A[i * n + j] != 0) coupled = true;
			}
			REQUIRE(c, e <= 1e-9 * m, "the fluid block of the system is not negative semi-definite: " + num(e) + " for a vector of scale " + num(m));
		}
		if(stop) break;
	}
	c.note("history", trace);
	if(done == 0) c.discard(why);
	if(done > 1) c.label("several systems");
	c.nontrivial = coupled;
}
PBT_MAIN("C11", prop)
