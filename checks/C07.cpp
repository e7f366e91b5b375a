// C07: derived space parameters follow from the given ones.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	Params q;
	q.l0 = s.chance(50) ? s.pick({0.1, 1.0, 0.01, 0.001, 0.025, 3.7}) : s.logreal(1e-6, 1e4);
	q.courant = s.chance(50) ? s.pick({0.1, 0.2, 0.4, 0.05}) : s.real(0, 1);
	q.ratio = s.chance(50) ? s.pick({2.1, 2.4, 3.1, 2.0, 3.0, 1.5, 4.0, 1.9}) : s.real(1.01, V_DIM == 3 ? 4.0 : 6.5);
	q.g = s.chance(70) ? s.pick({9.8, 0.0, 1.0, 1e-9}) : s.logreal(1e-6, 1e6);
	q.maxDt = s.logreal(1e-6, 1e3);
	q.rho = s.logreal(1e-3, 1e5); q.nu = s.chance(20) ? 0.0 : s.logreal(1e-9, 1e2); q.surfaceRatio = s.real(0.5, 1.2);
	q.c = s.logreal(1e-3, 1e4);
	for(int a = 0; a < V_DIM; a++) { q.minX[a] = s.sym(1e3) * q.l0; q.maxX[a] = q.minX[a] + s.real(0, 1e3) * q.l0; }
	const auto e = sut::environment(q);
	const auto k = ref::constants(q, ref::here());
	c.note("parameters", show(q)); c.note("n0", k.n0); c.note("lambda", k.lambda); c.note("max dt", k.maxDt);
	const auto same = [&](const char* what, double got, double want, double rel)
	{ REQUIRE(c, got == want || near(got, want, rel * std::abs(want)), std::string(what) + " is " + num(got) + " instead of " + num(want) + " for " + show(q)); };
	same("influence radius", e.R_e, q.ratio * q.l0, 1e-14);
	same("displacement limit", e.MaxDx, q.courant * q.l0, 1e-14);
	same("neighbour distance", e.NeighborLength, q.ratio * q.l0 * (1 + 2 * q.courant), 1e-14);
	same("maximum step", e.MaxDt, k.maxDt, 1e-14);
	same("spacing", e.L_0, q.l0, 0); same("density", e.Rho, q.rho, 0); same("viscosity", e.Nu, q.nu, 0);
#if V_EXPLICIT
	same("speed of sound", e.C, q.c, 0);
#endif
#if !V_SPP
	same("surface ratio", e.SurfaceRatio, q.surfaceRatio, 0);
#endif
	for(int a = 0; a < V_DIM; a++)
	{
		same("domain minimum", sut::arr(e.MinX)[a], q.minX[a], 0); same("domain maximum", sut::arr(e.MaxX)[a], q.maxX[a], 0);
		same("gravity", sut::arr(e.G)[a], a == V_DIM - 1 ? -q.g : 0.0, 0);
	}
	same("time at the start", e.T(), 0, 0);
	same("reference density", e.N0(), k.n0, 1e-11);
#if !V_HL
	same("lambda", e.Lambda(), k.lambda, 1e-11);
#endif
	// independent of the spacing
	Params q2 = q; q2.l0 = q.l0 * s.logreal(1e-3, 1e3);
	const auto e2 = sut::environment(q2);
	same("reference density with another spacing", e2.N0(), k.n0, 1e-10);
	// and of whatever parameters were used before
	const auto k2 = ref::constants(q2, ref::here());
	same("influence radius of a second set", e2.R_e, q2.ratio * q2.l0, 1e-14);
	same("neighbour distance of a second set", e2.NeighborLength, q2.ratio * q2.l0 * (1 + 2 * q2.courant), 1e-14);
	same("maximum step of a second set", e2.MaxDt, k2.maxDt, 1e-14);
#if !V_HL
	same("lambda of a second set", e2.Lambda(), k2.lambda, 1e-11);
#endif
	// equals what the code itself reports inside a complete lattice
	if(s.chance(V_DIM == 3 ? 10 : 30) && q.ratio < 3.3 && q.courant < 0.3)
	{
		Params q3 = q; State st;
		const int R = static_cast<int>(std::ceil(q.ratio)); const int RZ = V_DIM == 3 ? R : 0;
		for(int i = -R; i <= R; i++) for(int j = -R; j <= R; j++) for(int m = -RZ; m <= RZ; m++)
		{
			Pt p; p.x[0] = i * q.l0; p.x[1] = j * q.l0; if(V_DIM == 3) p.x[2] = m * q.l0;
			if(!i && !j && !m) st.insert(st.begin(), p); else st.push_back(p);
		}
		for(int a = 0; a < V_DIM; a++) { q3.minX[a] = -(R + 0.5 + s.real(0, 1)) * q.l0; q3.maxX[a] = (R + 0.5) * q.l0; }
		sut::Sim sim(q3, [](std::size_t, double, double) { return V{}; });
		sim.add(st); sim.search(); sim.densities();
		REQUIRE(c, near(sim.state()[0].n, k.n0, 1e-9 * k.n0), "density inside a complete lattice is " + num(sim.state()[0].n) + ", reference density " + num(k.n0) + " for ratio " + num(q.ratio));
		c.label("complete lattice");
	}
	c.label(k.maxDt < q.maxDt ? "step limited by gravity or sound" : "step limited by the given maximum");
	const double f = q.ratio - std::floor(q.ratio); c.label(f == 0 ? "integer ratio" : "fractional ratio");
	c.nontrivial = true;
}
PBT_MAIN("C07", prop)
