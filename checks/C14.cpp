// C14: pressure pushes fluid by the discrete gradient, equal and opposite in pairs.
// The gradient stage with arbitrary given pressures against brute force; momentum balance and pair impulses; and whole
// steps, with the pressures the step itself found.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 40 : 36; o.minDist = 0.4; o.spacingLo = 0.7;
	const int mode = s.integer(0, 3);
	if(mode == 0)
	{
		Scene sc = genScene(s, o); describe(c, sc); c.label("whole step");
		sut::Sim sim(sc.q, sc.fn()); sim.add(sc.s);
		const int steps = s.integer(1, 2); bool acted = false; int done = 0;
		try { for(int k = 0; k < steps; k++) { acted |= compareStep(c, sim, sc, sc.dt, CMP_MOTION).pressureActed; done++; } }
		catch(const pbt::Discard&) { if(done == 0) throw; }
		c.nontrivial = acted;
		return;
	}
	const bool pure = mode == 3 || s.chance(30);
	if(pure) o.walls = o.dummies = o.disabled = false;
	Scene sc;
	if(mode == 3)
	{
		// dense cluster (nobody lacks neighbours) or a single pair
		sc.q = genParams(s, o, sc.dt); const double l = sc.q.l0;
		const bool pair = s.chance(40);
		const double sp = pair ? s.real(0.3, 1.2) : s.real(0.42, 0.5);
		const int w = pair ? 2 : s.integer(3, V_DIM == 3 ? 3 : 5), h = pair ? 1 : V_DIM == 3 ? 3 : s.integer(3, 5), d = pair || V_DIM == 2 ? 1 : 3;
		V off{}; for(int a = 0; a < V_DIM; a++) off[a] = s.sym(5) * l;
		V dir{}; double m = 0; for(int a = 0; a < V_DIM; a++) { dir[a] = s.sym(1); m += dir[a] * dir[a]; }
		if(m < 1e-2) { dir = V{1, 0, 0}; m = 1; }
		for(int i = 0; i < w; i++) for(int j = 0; j < h; j++) for(int k = 0; k < d; k++)
		{
			Pt p; const int idx[3] = {i, V_DIM == 3 ? k : j, j};
			for(int a = 0; a < V_DIM; a++) { p.x[a] = off[a] + (pair ? i * sp * l * dir[a] / std::sqrt(m) : (idx[a] * sp + s.sym(0.02)) * l); p.u[a] = s.sym(0.2) * sc.q.courant * l / sc.dt; }
			sc.s.push_back(p);
		}
		sc.kind = pair ? "pair" : "dense"; sc.law = Law::From(sc.s); genDomain(s, sc, 0.6);
	}
	else sc = s.chance(5) ? genCrowd(s, o) : genScene(s, o);
	c.label("given pressures"); describe(c, sc);
	const double unit = sc.q.rho * sc.q.l0 * sc.q.l0 / (sc.dt * sc.dt) * sc.q.courant * 0.1;
	const int field = s.integer(0, 3); V slope{}; for(int a = 0; a < V_DIM; a++) slope[a] = s.sym(1);
	for(auto& p : sc.s)
	{
		p.p = field == 0 ? unit * s.real(0, 1) : field == 1 ? unit : field == 2 ? (s.chance(70) ? 0.0 : unit * s.real(0, 3)) : 0.0;
		if(field == 3) { double v = 3; for(int a = 0; a < V_DIM; a++) v += slope[a] * (p.x[a] - sc.s[0].x[a]) / sc.q.l0; p.p = unit * std::abs(v); }
	}
	sut::Sim sim(sc.q, sc.fn()); sim.add(sc.s); sim.setDt(sc.dt);
	try { sim.search(); } catch(const std::exception&) { c.discard("overfull block"); }
	sim.densities();
	const State before = sim.state();
	ref::Step r(sc.s, sc.q, 0, sc.dt, sc.fn());
	r.ambiguous.clear(); r.skin = false;
	r.density(r.x0, r.nw0, r.n0v); r.nw1 = r.nw0; r.n1v = r.n0v;
	std::vector<double> p; for(auto& a : before) p.push_back(a.p);
	std::vector<V> u0; for(auto& a : before) u0.push_back(a.u);
	r.gradient(p, r.x0, u0);
	for(auto& a : sc.s) for(int k = 0; k < V_DIM; k++) if(a.x[k] > sc.q.maxX[k]) c.discard("particle beyond the domain maximum");
	if(!r.ambiguous.empty()) c.discard(r.ambiguous);
	sim.gradient();
	const State a = sim.state();
	V mom{}; double scale = 0; bool acted = false, surface = false; std::size_t fl = 0;
	for(std::size_t i = 0; i < a.size(); i++)
	{
		REQUIRE(c, a[i].type == before[i].type && a[i].p == before[i].p && a[i].n == before[i].n, "the pressure correction changed type, pressure or density" + at(i));
		if(a[i].type != FLUID)
		{
			for(int b = 0; b < V_DIM; b++) REQUIRE(c, a[i].x[b] == before[i].x[b] && a[i].u[b] == before[i].u[b], "the pressure correction moved a wall, dummy or disabled particle" + at(i));
			continue;
		}
		fl++;
		if(r.degenerate[i]) { c.label("degenerate gradient matrix skipped"); surface = true; continue; }
		const double us = ref::dist(u0[i], V{}, V_DIM), xs = std::sqrt(ref::dot(r.x0[i], r.x0[i], V_DIM)) + sc.q.l0;
		const double ut = 1e-9 * r.du2s[i] + 1e-15 * us;
		REQUIRE(c, nearV(a[i].u, r.u2[i], ut), "velocity" + at(i) + " after the pressure correction: " + show(a[i].u) + " instead of " + show(r.u2[i]));
		REQUIRE(c, nearV(a[i].x, r.x2[i], ut * sc.dt + 1e-15 * xs), "position" + at(i) + " after the pressure correction: " + show(a[i].x) + " instead of " + show(r.x2[i]));
		for(int b = 0; b < V_DIM; b++) mom[b] += a[i].u[b] - u0[i][b];
		scale += r.du2s[i] + 1e-6 * us; acted |= r.du2s[i] > 0;
		surface |= V_SPP && r.nw0[i] < r.k.n0;
	}
#if V_MID && !V_GC
	if(pure && !surface && fl == a.size() && fl > 1)
	{
		REQUIRE(c, nearV(mom, V{}, 1e-9 * scale), "an all-fluid exchange of pressure changed the momentum by " + show(mom) + " (impulses of size " + num(scale) + ")");
		c.label("momentum balance");
	}
	if(sc.kind == "pair" && fl == 2)
	{
		// along the line between them; apart for positive pressures, when no virtual particle is involved
		const V e = ref::sub(a[1].x, a[0].x); V e0 = ref::sub(before[1].x, before[0].x); (void)e;
		const double l = std::sqrt(ref::dot(e0, e0, V_DIM)); for(auto& b : e0) b /= l;
		const V d0 = ref::sub(a[0].u, before[0].u), d1 = ref::sub(a[1].u, before[1].u);
		const double par0 = ref::dot(d0, e0, V_DIM), par1 = ref::dot(d1, e0, V_DIM);
		for(int b = 0; b < V_DIM; b++) REQUIRE(c, near(d0[b], par0 * e0[b], 1e-9 * scale) && near(d1[b], par1 * e0[b], 1e-9 * scale), "the impulse of a pair is not along the line between them");
		if(!surface && before[0].p + before[1].p > 0 && l < r.k.re) { REQUIRE(c, par0 <= 0 && par1 >= 0, "positive pressure pulls a pair together"); c.label("pair repelled"); }
	}
#endif
	c.nontrivial = acted;
}
PBT_MAIN("C14", prop)
