// C06: one neighbour search per step misses no interacting pair.
// Pairs are placed around the influence radius and driven towards (or past) each other at the largest admissible
// speed; densities, the pressure equation and pressures of the step are compared with a fresh brute-force evaluation.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	Scene sc; Params& q = sc.q;
	q.l0 = s.pick({0.1, 1.0, 0.01});
	q.courant = s.chance(50) ? s.pick({0.1, 0.2, 0.4, 0.05, 0.5}) : s.real(0.02, 0.6);
	q.ratio = s.chance(60) ? s.real(1.02, 1.9) : s.real(1.9, V_DIM == 3 ? 2.2 : 3.1);
	sc.dt = s.pick({1e-3, 1e-2});
	q.maxDt = sc.dt * 2; q.rho = s.pick({1000.0, 1.0}); q.eps = 1e-10; q.surfaceRatio = 0.9;
	q.c = 0.3 * q.l0 / sc.dt;
	q.g = 0; q.nu = s.chance(30) ? 0.01 * q.l0 * q.l0 / sc.dt : 0.0;
	const double step = q.courant * q.l0, re = q.ratio * q.l0;
	const int steps = s.chance(50) ? 1 : s.integer(2, 6); // several searches, of which each has to serve its own step
	const bool automatic = s.chance(30); // automatic step size: the fastest particle moves exactly the limit
	// groups of particles around a centre
	V off{}; for(int a = 0; a < V_DIM; a++) off[a] = s.chance(50) ? s.sym(20) * q.l0 : 0.0;
	const int groups = s.integer(1, 3);
	const double full = s.pick({1.0, 1.0, 0.999, 0.9, 0.5}) * (1 - 1e-9);
	for(int g = 0; g < groups; g++)
	{
		V ctr = off; for(int a = 0; a < V_DIM; a++) ctr[a] += g ? s.sym(3) * re : 0.0;
		Pt hub; hub.type = s.pick({FLUID, FLUID, WALL, DUMMY}); hub.x = ctr;
		V dirh{}; double lh = 0; for(int a = 0; a < V_DIM; a++) { dirh[a] = s.sym(1); } lh = std::sqrt(ref::dot(dirh, dirh, V_DIM));
		if(lh < 1e-3) { dirh = V{}; dirh[0] = lh = 1; }
		for(int a = 0; a < V_DIM; a++) hub.u[a] = dirh[a] / lh * step * full / sc.dt;
		if(!place(sc.s, hub, 0.3 * q.l0)) continue;
		const int n = s.integer(1, 7);
		for(int i = 0; i < n; i++)
		{
			// at a distance from which the largest approach just reaches (or just misses) the influence radius
			V d{}; double l = 0; for(int a = 0; a < V_DIM; a++) d[a] = i == 0 ? dirh[a] / lh : s.sym(1);
			l = std::sqrt(ref::dot(d, d, V_DIM)); if(l < 1e-3) continue;
			for(auto& v : d) v /= l;
			const double r = s.chance(70) ? re + step * (s.real(-2.2, 2.2) + 2 * s.integer(0, steps - 1)) : re * s.real(0.4, 1.4);
			Pt p; p.type = s.pick({FLUID, FLUID, WALL, DUMMY, FLUID, DISABLED});
			for(int a = 0; a < V_DIM; a++) p.x[a] = ctr[a] + d[a] * r;
			const double sign = s.pick({-1.0, -1.0, 1.0});
			for(int a = 0; a < V_DIM; a++) p.u[a] = sign * d[a] * step * full * (s.chance(70) ? 1.0 : s.real(0, 1)) / sc.dt;
			place(sc.s, p, 0.3 * q.l0);
		}
	}
	// wall motion at the same speeds
	sc.law = Law::From(sc.s); for(std::size_t i = 0; i < sc.s.size(); i++) sc.law.vel[i] = sc.s[i].u;
	genDomain(s, sc, 2.0);
	sc.kind = "approaching"; describe(c, sc);
	sut::Sim sim(q, sc.fn());
	sim.add(sc.s);
	const auto k = ref::constants(q, ref::here());
	double moved = 0; int entered = 0, left = 0, late = 0; bool full1 = false;
	for(int turn = 0; turn < steps; turn++)
	{
		const State now = sim.state(); const double t = sim.t();
		double dt = sc.dt;
		const double top = topSpeed(now);
		if(automatic && top > 0) dt = std::min(k.maxDt, k.maxDx / top);
		ref::Step pre(now, q, t, dt, sc.fn());
		if(!pre.ambiguous.empty()) { if(turn == 0) c.discard(pre.ambiguous); break; }
		moved = 0;
		for(std::size_t i = 0; i < now.size(); i++)
		{
			if(!pre.enabled(i)) continue;
			moved = std::max(moved, ref::dist(pre.x0[i], pre.x1[i], V_DIM));
			for(std::size_t j = 0; j < i; j++) if(pre.enabled(j))
			{
				const double a = ref::dist(pre.x0[i], pre.x0[j], V_DIM), b = ref::dist(pre.x1[i], pre.x1[j], V_DIM);
				if(a > re && b < re) { entered++; late += turn > 0; }
				if(a < re && b > re) left++;
			}
		}
		if(moved > step * (1 + 1e-9)) { if(turn == 0) c.discard("moved further than Courant x spacing"); break; }
		full1 |= moved > 0.99 * step;
		// compareStep discards pairs outside the reference's own search radius; within the limit there are none
		try { compareStep(c, sim, sc, dt, CMP_DENSITY | CMP_PPE | CMP_PRESSURE | CMP_TYPE); }
		catch(const pbt::Discard&) { if(turn == 0) throw; break; }
	}
	c.label(entered ? "pairs came into range" : "no pair came into range"); if(left) c.label("pairs left the range");
	if(late) c.label("pairs came into range in a later step");
	if(full1) c.label("largest admissible movement");
	c.nontrivial = entered > 0;
}
PBT_MAIN("C06", prop)
