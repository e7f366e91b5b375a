// C03: disabled particles are inert.
// Scenes with disabled particles (from the start, or by leaving in mid-run). Each step is compared with the reference
// (which ignores them) and with the same step of a fresh space from which they were removed; they stay frozen and no wall
// position is requested for them.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 30 : 26;
	Scene sc = genScene(s, o);
	// more disabled ones: anywhere (also on top of others), with any velocity
	const int extra = s.integer(0, 8);
	for(int i = 0; i < extra; i++)
	{
		Pt p; p.type = DISABLED;
		for(int a = 0; a < V_DIM; a++) p.x[a] = sc.q.minX[a] + (sc.q.maxX[a] - sc.q.minX[a]) * s.real(0, 1);
		if(!sc.s.empty() && s.chance(40)) p.x = sc.s[s.upto(sc.s.size() - 1)].x;
		if(s.chance(10)) p.x[0] = s.pick({1e300, -1e300, 1e9});
		for(int a = 0; a < V_DIM; a++) p.u[a] = s.sym(1) * s.pick({0.0, 1.0, 1e3, 1e8}) * sc.q.l0 / sc.dt;
		p.p = s.pick({0.0, 1.0, 1e6}); p.n = s.pick({0.0, 5.0, 1e4});
		const auto at = s.upto(sc.s.size());
		sc.s.insert(sc.s.begin() + static_cast<long>(at), p);
		sc.law.base.insert(sc.law.base.begin() + static_cast<long>(at), p.x);
		V v{}; for(int a = 0; a < V_DIM; a++) v[a] = s.sym(1) * sc.q.l0 / sc.dt;
		sc.law.vel.insert(sc.law.vel.begin() + static_cast<long>(at), v);
	}
	// a crowd of disabled ones in one place, more than a search block holds
	if(!sc.s.empty() && s.chance(12))
	{
		const V ctr = s.chance(80) ? sc.s[s.upto(sc.s.size() - 1)].x : sc.q.minX;
		const int crowd = s.integer(10, V_DIM == 3 ? 90 : 60);
		const double spread = s.pick({0.0, 1e-9, 0.3, 1.0}) * sc.q.l0;
		for(int i = 0; i < crowd; i++)
		{
			Pt p; p.type = DISABLED;
			for(int a = 0; a < V_DIM; a++) p.x[a] = ctr[a] + spread * std::sin(1.0 + 7 * i + 3 * a);
			const auto at = s.chance(50) ? sc.s.size() : 0;
			sc.s.insert(sc.s.begin() + static_cast<long>(at), p);
			sc.law.base.insert(sc.law.base.begin() + static_cast<long>(at), p.x); sc.law.vel.insert(sc.law.vel.begin() + static_cast<long>(at), V{});
		}
		c.label("crowd of disabled particles");
	}
	// some enabled ones just outside the domain: they are disabled by the first step
	const int leavers = s.chance(50) ? s.integer(1, 3) : 0;
	for(int i = 0; i < leavers; i++)
	{
		Pt p; p.type = s.pick({FLUID, WALL, DUMMY});
		for(int a = 0; a < V_DIM; a++) p.x[a] = sc.q.minX[a] + (sc.q.maxX[a] - sc.q.minX[a]) * s.real(0, 1);
		const std::size_t a = s.upto(V_DIM - 1); p.x[a] = sc.q.minX[a] - sc.q.l0 * s.real(0.01, 0.5);
		p.p = 10;
		for(int b = 0; b < V_DIM; b++) p.u[b] = s.sym(0.2) * sc.q.courant * sc.q.l0 / sc.dt;
		if(place(sc.s, p, 0.45 * sc.q.l0)) { sc.law.base.push_back(p.x); V v{}; for(int b = 0; b < V_DIM; b++) v[b] = s.sym(0.2) * sc.q.courant * sc.q.l0 / sc.dt; sc.law.vel.push_back(v); }
	}
	describe(c, sc);
	sut::Sim sim(sc.q, sc.fn());
	sim.hooks.record = true;
	sim.add(sc.s);
	const int steps = s.integer(1, 3); int done = 0; bool informative = false;
	try
	{
		for(int k = 0; k < steps; k++)
		{
			const State before = sim.state();
			const double t0 = sim.t();
			const double top = topSpeed(before);
			const auto kk = ref::constants(sc.q, ref::here());
			const bool automatic = s.chance(50);
			if(!automatic && top * sc.dt > sc.q.courant * sc.q.l0) break;
			const double dt = automatic ? (top == 0 ? kk.maxDt : std::min(kk.maxDt, kk.maxDx / top)) : sc.dt;
			sim.hooks.calls.clear();
			// what the space without them does
			State rest; std::vector<std::size_t> id;
			for(std::size_t i = 0; i < before.size(); i++) if(before[i].type != DISABLED) { rest.push_back(before[i]); id.push_back(i); }
			const auto fn = sc.fn();
			sut::Sim without(sc.q, [&](std::size_t i, double t, double h) { return fn(id[i], t + t0, h); });
			without.add(rest);
			const auto errW = tryStep(without, automatic ? 0 : dt);
			const State w = without.state();
			State after;
			// disabled particles may not fill search blocks
			{
				sut::Sim with(sc.q, [&](std::size_t i, double t, double h) { return fn(i, t + t0, h); }); with.add(before);
				const auto errF = tryStep(with, automatic ? 0 : dt);
				REQUIRE(c, errW.find("block") != std::string::npos || errF.find("block") == std::string::npos, "the step fails (" + errF + "), but not without the disabled particles");
			}
			ref::Step r(before, sc.q, t0, dt, fn);
			if(!r.ambiguous.empty()) c.discard(r.ambiguous);
			if(automatic)
			{
				// the automatic choice, then the same comparisons as for a given step
				const auto err = tryStep(sim, 0);
				if(err.find("block") != std::string::npos) c.discard("overfull block");
				REQUIRE(c, near(sim.dt(), dt, 1e-13 * dt), "the automatic step is " + num(sim.dt()) + " instead of " + num(dt) + " (largest speed of an enabled particle " + num(top) + ")");
				if(errW.find("block") == std::string::npos) REQUIRE(c, near(sim.dt(), without.dt(), 1e-13 * dt), "the automatic step is " + num(sim.dt()) + ", but " + num(without.dt()) + " without the disabled particles");
				r.solve();
				if(r.skin) c.discard("pair outside the searched range came within reach");
				if(!r.solvable) c.discard("singular pressure equation");
				if(!err.empty() && !r.mustSolve()) c.discard("conjugate gradients did not converge");
				REQUIRE(c, err.empty(), "step raised an error on a well-conditioned scene: " + err);
				after = sim.state();
				checkDensity(c, r, before, after); checkPressure(c, r, before, after, sc.q);
				std::vector<double> p; for(auto& a : after) p.push_back(a.p);
				r.gradient(p, r.x1, r.u1); r.stabilise();
				if(r.skin) c.discard("pair outside the searched range came within reach");
				if(!r.ambiguous.empty()) c.discard(r.ambiguous);
				checkMotion(c, r, before, after, sc, dt);
			}
			else { Outcome oc = compareStep(c, sim, sc, dt, CMP_ALL); r = oc.r; after = oc.after; }
			// requests of wall positions
			for(auto& call : sim.hooks.calls) if(!call.pre)
				REQUIRE(c, call.i < after.size() && after[call.i].type != DISABLED, "the position of disabled particle " + num(call.i) + " was requested");
			// frozen
			int dis = 0;
			for(std::size_t i = 0; i < after.size(); i++) if(after[i].type == DISABLED)
			{
				dis++;
				REQUIRE(c, after[i].p == before[i].p, "pressure of disabled particle changed" + at(i));
				for(int a = 0; a < V_DIM; a++) REQUIRE(c, after[i].x[a] == before[i].x[a] && after[i].u[a] == before[i].u[a], "disabled particle moved" + at(i));
			}
			// against the space without them
			if(errW.empty())
			{
				const double tol = V_EXPLICIT ? 1e-9 * sc.q.c * sc.q.c * sc.q.rho * 10 : pressureTol(r, before, sc.q.eps);
				ref::Step g = r; g.gradient(std::vector<double>(before.size(), tol), r.x1, r.u1);
				for(std::size_t m = 0; m < id.size(); m++)
				{
					const std::size_t i = id[m];
					REQUIRE(c, w[m].type == after[i].type, "type" + at(i) + " differs without the disabled particles");
					if(after[i].type == DISABLED) continue;
					REQUIRE(c, near(w[m].n, after[i].n, 1e-10 * (std::abs(after[i].n) + r.k.n0)), "density" + at(i) + " is " + num(after[i].n) + ", but " + num(w[m].n) + " without the disabled particles");
					REQUIRE(c, near(w[m].p, after[i].p, 2 * tol + 1e-12 * std::abs(after[i].p)), "pressure" + at(i) + " is " + num(after[i].p) + ", but " + num(w[m].p) + " without the disabled particles (tolerance " + num(tol) + ")");
					if(r.close || r.degenerate[i]) continue;
					const double us = ref::dist(before[i].u, V{}, V_DIM) + r.du1s[i] + r.du2s[i];
					const double xs = std::sqrt(ref::dot(r.x1[i], r.x1[i], V_DIM)) + sc.q.l0;
					REQUIRE(c, nearV(w[m].u, after[i].u, 1e-9 * us + 2 * g.du2s[i] + 1e-12 * xs / dt), "velocity" + at(i) + " is " + show(after[i].u) + ", but " + show(w[m].u) + " without the disabled particles");
					REQUIRE(c, nearV(w[m].x, after[i].x, (1e-9 * us + 2 * g.du2s[i]) * dt + 1e-12 * xs), "position" + at(i) + " is " + show(after[i].x) + ", but " + show(w[m].x) + " without the disabled particles");
				}
				c.label("compared with the space without them");
			}
			informative |= dis > 0 && dis < static_cast<int>(after.size());
			done++;
		}
	}
	catch(const pbt::Discard& d) { if(done == 0) throw; c.label("history cut short: " + d.why); }
	if(leavers) c.label("left during the run");
	c.nontrivial = informative && done > 0;
}
PBT_MAIN("C03", prop)
