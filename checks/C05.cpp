// C05: number density equals the weighted sum over all particles in range.
// Densities computed by the code (after a search, after moving without a new search, and at the end of steps)
// against brute-force sums; laws of the weight function.
#include "compare.hpp"

static void weightCase(pbt::Case& c)
{
	auto& s = c.s;
	const double re = s.pick({1.0, 0.21, 0.031, 2.4, 3.1e-3}) * s.real(0.5, 2);
	const double r1 = re * (s.chance(20) ? s.pick({0.0, 1.0, 1 - 1e-12, 1 + 1e-12, 1e-6, 2.0, 1e3}) : s.real(0, 1.2));
	const double r2 = re * s.real(0, 1.2);
	const double w1 = OpenMps::Particle::W(r1, re), w2 = OpenMps::Particle::W(r2, re);
	c.note("r1/re", r1 / re); c.note("r2/re", r2 / re); c.note("re", re); c.label("weight function");
	for(int i = 0; i < 2; i++)
	{
		const double r = i ? r2 : r1, w = i ? w2 : w1;
		const double expect = ref::weight(r, re);
		REQUIRE(c, near(w, expect, 1e-12 * (1 + expect)), "weight at " + num(r / re) + " influence radii is " + num(w) + " instead of " + num(expect));
		REQUIRE(c, w >= 0, "negative weight");
	}
	if(r1 > 0 && r2 > r1) REQUIRE(c, w2 <= w1, "the weight increases with the distance");
	REQUIRE(c, OpenMps::Particle::W(re, re) == 0 && OpenMps::Particle::W(0, re) == 0, "weight at the influence radius or at distance 0 is not 0");
	REQUIRE(c, OpenMps::Particle::W(re * (1 - 1e-9), re) < 1e-8, "the weight jumps at the influence radius");
	c.nontrivial = r1 > 0 && r1 < re;
}

static void check(pbt::Case& c, sut::Sim& sim, const State& stored, const Params& q, const char* when, std::size_t& pairs)
{
	const auto k = ref::constants(q, ref::here());
	const State now = sim.state();
	for(std::size_t i = 0; i < now.size(); i++)
	{
		if(now[i].type == DUMMY || now[i].type == DISABLED)
		{
			REQUIRE(c, now[i].n == stored[i].n, std::string("stored density of a ") + (now[i].type == DUMMY ? "dummy" : "disabled") + " particle changed" + at(i) + " " + when);
			continue;
		}
		double sum = 0;
		for(std::size_t j = 0; j < now.size(); j++)
		{
			if(j == i || now[j].type == DISABLED) continue;
			const double r = ref::dist(now[i].x, now[j].x, V_DIM);
			if(r < k.re) pairs++;
			sum += ref::weight(r, k.re);
		}
		const double want = V_SPP ? std::max(sum, k.n0) : sum;
		REQUIRE(c, near(now[i].n, want, 1e-9 * (sum + k.n0)), std::string("density") + at(i) + " " + when + ": " + num(now[i].n) + " instead of " + num(want) + " (sum " + num(sum) + ", reference " + num(k.n0) + ")");
	}
}

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	if(s.chance(20)) { weightCase(c); return; }
	SceneOpt o; o.maxN = V_DIM == 3 ? 60 : 50; o.minDist = s.pick({0.45, 0.1, 0.02, 0.001}); o.spacingLo = 0.6;
	o.ratioLo = 1.05;
	const bool crowd = s.chance(4);
	Scene sc = crowd ? genCrowd(s, o) : genScene(s, o);
	if(!crowd && o.minDist < 0.2 && !sc.s.empty()) for(int k = s.integer(0, 3); k > 0; k--)
	{
		// twins: pairs much closer than the spacing
		Pt p = sc.s[s.upto(sc.s.size() - 1)]; p.type = s.pick({FLUID, WALL, DUMMY});
		p.x[s.upto(V_DIM - 1)] += s.logreal(o.minDist, 0.3) * 1.1 * sc.q.l0;
		if(place(sc.s, p, o.minDist * sc.q.l0)) { sc.law.base.push_back(p.x); sc.law.vel.push_back(V{}); c.label("very close pair"); }
	}
	describe(c, sc);
	sut::Sim sim(sc.q, sc.fn());
	sim.add(sc.s);
	std::size_t pairs = 0;
	const bool stages = crowd || s.chance(60);
	if(stages)
	{
		const int rounds = s.integer(1, 3);
		for(int k = 0; k < rounds; k++)
		{
			State before = sim.state();
			if(k > 0)
			{
				// move everything by less than the search margin allows, without a new search
				for(auto& p : before) for(int a = 0; a < V_DIM; a++) p.x[a] += s.sym(0.4 / std::sqrt(double(V_DIM))) * sc.q.courant * sc.q.l0;
				sim.set(before);
			}
			else try { sim.search(); } catch(const std::exception&) { c.discard("overfull block"); }
			before = sim.state();
			sim.densities();
			check(c, sim, before, sc.q, k ? "after moving" : "after a search", pairs);
		}
		c.label(rounds > 1 ? "moved without a new search" : "one search");
	}
	else
	{
		const int steps = s.integer(1, 3); int done = 0;
		try
		{
			for(int k = 0; k < steps; k++)
			{
				if(topSpeed(sim.state()) * sc.dt > sc.q.courant * sc.q.l0) break;
				compareStep(c, sim, sc, sc.dt, CMP_DENSITY); done++; pairs += 3;
			}
		}
		catch(const pbt::Discard& d) { if(!done) throw; }
		c.label("whole steps");
	}
	c.nontrivial = pairs > 2;
}
PBT_MAIN("C05", prop)
