// C02: leaving the domain disables a particle for good; being inside never does.
// Positions in, on and far beyond the border, reached by placement, flight or wall law; the type of every particle
// after each step is compared with the border rule.
#include "compare.hpp"

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	Params q; Scene sc;
	q.l0 = s.pick({0.1, 1.0, 0.01, 0.003}); q.courant = s.pick({0.1, 0.2, 0.4}); q.ratio = s.real(1.05, V_DIM == 3 ? 2.2 : 3.1);
	sc.dt = s.pick({1e-3, 1e-2}); q.maxDt = sc.dt; q.g = s.chance(50) ? 0.0 : 0.1 * q.courant * q.l0 / (sc.dt * sc.dt); q.nu = s.chance(50) ? 0.0 : 1e-3 * q.l0 * q.l0 / sc.dt;
	q.rho = 1000; q.eps = 1e-6; q.c = 0.1 * q.l0 / sc.dt; q.surfaceRatio = 0.95;
	const double NL = q.ratio * q.l0 * (1 + 2 * q.courant);
	for(int a = 0; a < V_DIM; a++)
	{
		q.minX[a] = s.chance(60) ? s.sym(30) * q.l0 : 0.0;
		q.maxX[a] = q.minX[a] + (s.chance(30) ? NL * s.integer(1, 5) : q.l0 * s.real(0.2, 14));
	}
	sc.q = q;
	const auto coord = [&](int a)
	{
		const double lo = q.minX[a], hi = q.maxX[a], w = hi - lo;
		switch(s.upto(15))
		{
		case 0: case 1: case 2: case 3: case 4: case 5: case 6: return lo + w * s.real(0, 1);
		case 7: return lo;
		case 8: return hi;
		case 9: return lo - s.logreal(1e-8, 1) * q.l0;
		case 10: return hi + s.logreal(1e-8, 3.5) * NL;
		case 11: return lo + w * s.pick({1e-15, 1e-9, 1 - 1e-9, 1 - 1e-15});
		case 12: return s.pick({1.0, -1.0}) * s.logreal(1, 1e12) * q.l0 * 100;
		case 13: return s.pick({1e300, -1e300, 1e19, -1e19, 9.3e18, -9.3e18, 1.7e308, -1.7e308});
		case 14: return lo - s.real(0, 3) * NL;
		default: return lo + w * s.real(0, 1);
		}
	};
	const int n = s.integer(1, 24);
	for(int i = 0; i < n; i++)
	{
		Pt p; p.type = s.pick({FLUID, FLUID, FLUID, WALL, DUMMY, DISABLED});
		const bool odd = s.chance(50);
		for(int a = 0; a < V_DIM; a++) p.x[a] = odd ? coord(a) : q.minX[a] + (q.maxX[a] - q.minX[a]) * s.real(0, 1);
		const double v = s.chance(60) ? s.real(0, 0.4) * q.courant : s.logreal(0.1, 100);
		for(int a = 0; a < V_DIM; a++) p.u[a] = s.sym(v) * q.l0 / sc.dt;
		place(sc.s, p, 0.45 * q.l0);
	}
	sc.law = Law::From(sc.s);
	// walls may be sent anywhere, too
	const bool send = s.chance(40);
	if(send) for(std::size_t i = 0; i < sc.s.size(); i++) for(int a = 0; a < V_DIM; a++) sc.law.vel[i][a] = s.sym(s.chance(20) ? 40 : 1) * q.l0 / sc.dt;
	V back{}; for(int a = 0; a < V_DIM; a++) back[a] = (q.minX[a] + q.maxX[a]) / 2;
	const bool comeBack = s.chance(30); // the law moves everything back inside later: must not revive anything
	sc.kind = "border"; describe(c, sc);
	const Law law = sc.law; const double t2 = 2.5 * sc.dt;
	const auto fn = [law, comeBack, back, t2](std::size_t i, double t, double dt) { return comeBack && t > t2 ? back : law(i, t, dt); };
	sut::Sim sim(q, fn);
	sim.add(sc.s);
	const int steps = s.integer(1, 5); int outs = 0, stays = 0, kept = 0;
	for(int k = 0; k < steps; k++)
	{
		const State before = sim.state();
		const auto err = tryStep(sim, sc.dt);
		if(err.find("block") != std::string::npos) break;
		const State after = sim.state();
		REQUIRE(c, after.size() == before.size(), "number of particles changed");
		for(std::size_t i = 0; i < after.size(); i++)
		{
			if(before[i].type == DISABLED) { REQUIRE(c, after[i].type == DISABLED, "a disabled particle came back" + at(i)); stays++; continue; }
			REQUIRE(c, after[i].type == before[i].type || after[i].type == DISABLED, "the type" + at(i) + " changed from " + num(before[i].type) + " to " + num(after[i].type));
			bool inside = true, outside = false;
			for(int a = 0; a < V_DIM; a++)
			{
				const double x = before[i].x[a];
				if(!std::isfinite(x)) { outside = true; inside = false; continue; }
				if(!(x >= q.minX[a] && x <= q.maxX[a])) inside = false;
				const double mar = 1e-12 * (NL + std::abs(q.minX[a]) + std::abs(q.maxX[a]));
				if(x < q.minX[a] - mar || x > q.maxX[a] + 3 * NL + mar) outside = true;
			}
			if(inside) { REQUIRE(c, after[i].type == before[i].type, "a particle inside the domain was disabled" + at(i) + ", position " + show(before[i].x)); kept++; }
			if(outside) { REQUIRE(c, after[i].type == DISABLED, "a particle outside the domain was not disabled" + at(i) + ", position " + show(before[i].x)); outs++; }
		}
		if(!err.empty()) break;
	}
	c.note("steps", steps);
	if(outs) c.label("particles left"); if(stays) c.label("disabled over further steps"); if(comeBack && steps > 3) c.label("walls sent back inside");
	c.nontrivial = outs > 0 && kept > 0;
}
PBT_MAIN("C02", prop)
