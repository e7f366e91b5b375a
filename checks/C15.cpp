// C15: artificial repulsion acts only on, and exactly against, over-close pairs.
// "Molecules" of particles approaching each other, mostly too sparse for pressure, in whole steps against the reference;
// momentum balance; no effect without close pairs; and general dense scenes.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 30 : 28;
	Scene sc; const bool dense = s.chance(30); bool pure = false;
	if(dense) { o.minDist = 0.35; o.spacingLo = 0.6; o.spacingHi = 1.0; sc = genScene(s, o); }
	else
	{
		o.ratioLo = 1.8;
		sc.q = genParams(s, o, sc.dt); const double l = sc.q.l0;
		pure = s.chance(45);
		if(s.chance(50)) sc.q.nu = 0;
		const int m = s.integer(1, V_DIM == 3 ? 6 : 9); const int side = V_DIM == 3 ? 2 : 3; const double gap = s.real(2.2, 4.5);
		const double v = s.real(0.05, 0.5) * sc.q.courant * l / sc.dt;
		for(int k = 0; k < m; k++)
		{
			V ctr{}; int q = k; for(int a = 0; a < V_DIM; a++) { ctr[a] = (q % side) * gap * l; q /= side; }
			const int n = s.integer(1, 3);
			for(int i = 0; i < n; i++)
			{
				Pt p; for(int a = 0; a < V_DIM; a++) { p.x[a] = ctr[a] + s.sym(i == 0 ? 0.05 : 0.75) * l; p.u[a] = s.sym(v); }
				p.type = pure ? FLUID : s.pick({FLUID, FLUID, FLUID, FLUID, WALL, DUMMY, DISABLED});
				p.p = 0;
				place(sc.s, p, s.pick({0.3, 0.6, 0.75}) * l);
			}
		}
		sc.kind = pure ? "molecules, fluid only" : "molecules"; sc.law = Law::From(sc.s);
		if(s.chance(50)) for(auto& w : sc.law.vel) for(int a = 0; a < V_DIM; a++) w[a] = s.sym(v);
		genDomain(s, sc, 0.6);
	}
	describe(c, sc);
	sut::Sim sim(sc.q, sc.fn()); sim.add(sc.s);
	const int steps = s.integer(1, 3); int done = 0, close = 0; std::string why; bool fl = false;
	for(int k = 0; k < steps; k++)
	{
		const State before = sim.state();
		std::unique_ptr<Outcome> oc;
		try { oc = std::make_unique<Outcome>(compareStep(c, sim, sc, sc.dt, CMP_MOTION)); }
		catch(const pbt::Discard& d) { why = d.why; break; }
		const auto& r = oc->r; const State& a = oc->after;
		done++; close += r.close; fl |= hasFluid(before) && before.size() > 1;
		if(!r.close) c.label("no close pair");
#if V_DS
		// the distances the pair directions and thresholds were given by
		const double d = (1 - sc.q.courant) * sc.q.l0;
		for(std::size_t i = 0; i < a.size(); i++) if(r.in[i].type == FLUID && !r.degenerate[i] && !nearDegenerate(r, a, i, sc.q.l0))
		{
			bool any = false;
			for(std::size_t j = 0; j < a.size(); j++) if(j != i && (r.in[j].type == FLUID || r.in[j].type == WALL) && ref::dist(r.x2[i], r.x2[j], V_DIM) < d) any = true;
			if(!any)
			{
				const double us = ref::dist(before[i].u, V{}, V_DIM) + r.du1s[i] + r.du2s[i];
				REQUIRE(c, nearV(a[i].u, r.u2[i], 1e-8 * us + 1e-13 * (std::sqrt(ref::dot(r.x1[i], r.x1[i], V_DIM)) + sc.q.l0) / sc.dt), "repulsion acted" + at(i) + " without a close particle");
			}
		}
#endif
#if !V_CENTRAL
		bool free = true; double scale = 0; V m{}; std::size_t n = 0;
		for(std::size_t i = 0; i < a.size(); i++)
		{
			if(r.in[i].type == DISABLED) continue;
			if(r.in[i].type != FLUID || a[i].p != 0) { free = false; break; }
			n++; for(int b = 0; b < V_DIM; b++) m[b] += a[i].u[b] - before[i].u[b] + (b == V_DIM - 1 ? sc.q.g * sc.dt : 0);
			scale += ref::dist(before[i].u, V{}, V_DIM) + r.du1s[i] + r.du3s[i];
		}
		if(free && n > 1)
		{
			REQUIRE(c, nearV(m, V{}, 1e-9 * scale), "repulsion between fluid particles changed the momentum by " + show(m) + " (impulses of size " + num(scale) + ")");
			if(r.close) c.label("momentum balance with repulsion");
		}
#endif
	}
	if(done == 0) c.discard(why);
	c.nontrivial = V_DS ? close > 0 : fl;
}
PBT_MAIN("C15", prop)
