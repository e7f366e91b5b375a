// Large scenes: many shifted copies of a small scene, too far apart to see each other, in one space of up to 70000
// particles. What happens in each copy must be what happens to the small scene alone (or what brute force over it gives).
// One property is looked at per build: WIDE = 1 (neighbour lists, C01), 3 (most copies disabled, C03), 5 (densities, C05),
// 10 (wall law, C10), 17 (whole steps), 20 (added in batches).
#include "compare.hpp"

#ifndef WIDE
#define WIDE 17
#endif

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = 30; o.leaving = 0; o.exact = 0;
	Scene sc = genScene(s, o);
	const std::size_t n = sc.s.size();
	if(n == 0) c.discard("empty scene");
	sc.q.eps = 1e-10;
	const std::size_t total = s.pick({60, 5000, 66000, 66000, 70000});
	const std::size_t M = std::max<std::size_t>(1, total / n);
	// layout of the copies
	V lo = sc.s[0].x, hi = sc.s[0].x;
	for(auto& p : sc.s) for(int a = 0; a < V_DIM; a++) { lo[a] = std::min(lo[a], p.x[a]); hi[a] = std::max(hi[a], p.x[a]); }
	const double NL = sc.q.ratio * sc.q.l0 * (1 + 2 * sc.q.courant);
	V pitch{}; for(int a = 0; a < V_DIM; a++) pitch[a] = (hi[a] - lo[a]) + NL * s.real(3, 4) + 3 * sc.q.l0;
	const std::size_t side = static_cast<std::size_t>(std::sqrt(static_cast<double>(M))) + 1;
	const std::size_t cols = s.chance(60) ? side : s.chance(50) ? M : 1 + s.upto(M - 1);
	const std::size_t rows = (M + cols - 1) / cols;
	const bool interleaved = s.chance(40);
	const auto copyOf = [&](std::size_t k) { return interleaved ? k % M : k / n; };
	const auto partOf = [&](std::size_t k) { return interleaved ? k / M : k % n; };
	const auto shift = [&](std::size_t m) { V v{}; v[0] = pitch[0] * static_cast<double>(m % cols); v[V_DIM - 1] = pitch[V_DIM - 1] * static_cast<double>(m / cols); return v; };
	for(int a = 0; a < V_DIM; a++) { sc.q.minX[a] = lo[a] - NL - 2 * sc.q.l0; sc.q.maxX[a] = hi[a] + NL + 2 * sc.q.l0; }
	Params q = sc.q;
	q.maxX[0] += pitch[0] * static_cast<double>(cols); q.maxX[V_DIM - 1] += pitch[V_DIM - 1] * static_cast<double>(rows);
	const double far = std::max({std::abs(q.maxX[0]), std::abs(q.maxX[V_DIM - 1]), std::abs(q.minX[0]), std::abs(q.minX[V_DIM - 1])});
	describe(c, sc); c.note("copies", num(M) + " in " + num(cols) + " columns" + (interleaved ? ", interleaved" : ""));
	c.label(M * n > 65535 ? "more than 65535 particles" : "fewer particles");
	const std::size_t alive = 1 + s.upto(2); // copies that are not disabled (WIDE 3)
	const std::size_t first = M > 3 ? M - 3 : 0;
	const auto dead = [&](std::size_t m) { return WIDE == 3 && !(m >= first && m < first + alive); };
	const auto tile = [&](const State& t)
	{
		State r; r.reserve(n * M);
		for(std::size_t k = 0; k < n * M; k++)
		{
			Pt p = t[partOf(k)]; const V d = shift(copyOf(k)); for(int a = 0; a < V_DIM; a++) p.x[a] += d[a];
			if(dead(copyOf(k))) p.type = DISABLED;
			r.push_back(p);
		}
		return r;
	};
	const auto fn = sc.fn();
	sut::Sim small(sc.q, fn);
	std::vector<V> answers(WIDE == 10 ? n * M : 0); std::vector<int> asked(answers.size());
	sut::Sim wide(q, [&](std::size_t k, double t, double h)
	{
		V x = fn(partOf(k), t, h); const V d = shift(copyOf(k)); for(int a = 0; a < V_DIM; a++) x[a] += d[a];
		if(WIDE == 10 && k < answers.size()) { answers[k] = x; asked[k]++; }
		return x;
	});
	small.add(sc.s);
	const State all = tile(sc.s);
	if(WIDE == 20)
	{
		std::size_t have = 0; std::string plan;
		while(have < all.size())
		{
			const std::size_t m = std::min(all.size() - have, s.chance(30) ? 1 + s.upto(3) : 1 + s.upto(all.size() - have - 1));
			wide.add(State(all.begin() + static_cast<long>(have), all.begin() + static_cast<long>(have + m))); have += m; plan += num(m) + " ";
		}
		c.note("batches", plan);
	}
	else wide.add(all);
	REQUIRE(c, wide.c().Particles().size() == n * M, "after adding " + num(n * M) + " particles there are " + num(wide.c().Particles().size()));
	if(WIDE == 1 || WIDE == 5)
	{
		try { small.search(); } catch(const std::exception&) { c.discard("overfull block"); }
		try { wide.search(); } catch(const std::exception&) { c.discard("overfull block"); }
		if(WIDE == 5) wide.densities();
		std::size_t pairs = 0;
		std::vector<std::vector<std::size_t>> want(n); std::vector<double> sum(n, 0);
		const auto kk = ref::constants(sc.q, ref::here());
		for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < n; j++) if(j != i && sc.s[i].type != DISABLED && sc.s[j].type != DISABLED)
		{
			const double r = ref::dist(sc.s[i].x, sc.s[j].x, V_DIM);
			if(std::abs(r - NL) < 1e-7 * NL || std::abs(r - kk.re) < 1e-7 * kk.re) c.discard("pair at the neighbour distance or influence radius");
			if(r < NL) { want[i].push_back(j); pairs++; }
			sum[i] += ref::weight(r, kk.re);
		}
		for(std::size_t k = 0; k < n * M; k++)
		{
			const std::size_t i = partOf(k), m = copyOf(k); if(sc.s[i].type == DISABLED) continue;
			if(WIDE == 5)
			{
				const Pt p = sut::point(wide.c().Particles()[k]);
				const double w = sc.s[i].type == DUMMY ? sc.s[i].n : V_SPP ? std::max(sum[i], kk.n0) : sum[i];
				REQUIRE(c, near(p.n, w, 1e-8 * (sum[i] + kk.n0)), "density" + at(k) + " (number " + num(i) + " of copy " + num(m) + ") is " + num(p.n) + " instead of " + num(w));
				continue;
			}
			auto list = wide.neighbors(k); std::vector<std::size_t> got;
			for(auto j : list)
			{
				REQUIRE(c, j < n * M && copyOf(j) == m, "neighbour list" + at(k) + " (number " + num(i) + " of copy " + num(m) + ") holds " + num(j) + ", which is far away");
				got.push_back(partOf(j));
			}
			std::sort(got.begin(), got.end());
			REQUIRE(c, got == want[i], "neighbour list" + at(k) + " (number " + num(i) + " of copy " + num(m) + ") has " + num(got.size()) + " members instead of the " + num(want[i].size()) + " particles in range");
		}
		c.nontrivial = pairs > 1 && M > 1; return;
	}
	const int steps = s.integer(1, 2); int done = 0; std::string why; bool any = false;
	for(int st = 0; st < steps; st++)
	{
		const State before = small.state(); const double t0 = small.t(), dt = sc.dt;
		if(topSpeed(before) * dt > sc.q.courant * sc.q.l0 * 1.5) { why = "too fast"; break; }
		ref::Step r(before, sc.q, t0, dt, fn);
		if(!r.ambiguous.empty()) { why = r.ambiguous; break; }
		r.solve();
		const auto ea = tryStep(small, dt), eb = tryStep(wide, dt);
		if(ea.find("block") != std::string::npos || eb.find("block") != std::string::npos) { why = "overfull block"; break; }
		if(r.skin) { why = "pair outside the searched range came within reach"; break; }
		if(WIDE == 10)
		{
			for(std::size_t k = 0; k < n * M; k++)
			{
				const Pt p = sut::point(wide.c().Particles()[k]); const bool wall = p.type == WALL || p.type == DUMMY;
				REQUIRE(c, asked[k] == (wall ? 1 : 0), "the position" + at(k) + " was requested " + num(asked[k]) + " times in a step"); asked[k] = 0;
				if(wall) for(int a = 0; a < V_DIM; a++) REQUIRE(c, p.x[a] == answers[k][a], "wall or dummy" + at(k) + " is at " + show(p.x) + " instead of " + show(answers[k]));
				any |= wall;
			}
			done++; if(!ea.empty() || !eb.empty()) break;
			continue;
		}
		if(!r.solvable) { why = "singular pressure equation"; break; }
		if(!ea.empty() || !eb.empty())
		{
			if(!r.mustSolve()) { why = "conjugate gradients did not converge"; break; }
			c.fail("step raised an error on a well-conditioned scene: " + ea + eb);
		}
		const State sa = small.state();
		double bm = 0; for(double v : r.bs) bm = std::max(bm, v);
		const double tol = V_EXPLICIT ? 1e-9 * sc.q.c * sc.q.c * sc.q.rho * 10 : 2 * pressureTol(r, before, sc.q.eps * std::sqrt(static_cast<double>(M))) + 1e-8 * r.normInv * bm;
		std::vector<double> p; for(auto& x : sa) p.push_back(x.p);
		r.condLimit = 300;
		r.gradient(p, r.x1, r.u1); r.stabilise();
		if(!r.ambiguous.empty()) { why = r.ambiguous; break; }
		if(r.skin) { why = "pair outside the searched range came within reach"; break; }
		ref::Step g = r; g.gradient(std::vector<double>(n, tol), r.x1, r.u1);
		double worst = 0; for(std::size_t i = 0; i < n; i++) worst = std::max(worst, g.du2s[i]);
		REQUIRE(c, near(wide.t(), small.t(), 1e-14 * small.t()), "the clock differs");
		for(std::size_t k = 0; k < n * M; k++)
		{
			const std::size_t i = partOf(k), m = copyOf(k); if(dead(m)) { REQUIRE(c, wide.c().Particles()[k].TYPE() == OpenMps::Particle::Type::Disabled, "disabled particle" + at(k) + " came back"); continue; }
			const Pt b = sut::point(wide.c().Particles()[k]); Pt w = sa[i]; const V d = shift(m); for(int a = 0; a < V_DIM; a++) w.x[a] += d[a];
			const auto who = [&] { return at(k) + " (number " + num(i) + " of copy " + num(m) + ")"; };
			REQUIRE(c, b.type == w.type, "type" + who() + " differs from the scene alone");
			if(w.type == DISABLED) continue;
			REQUIRE(c, near(b.n, w.n, 1e-8 * (std::abs(w.n) + r.k.n0)), "density" + who() + " is " + num(b.n) + " instead of " + num(w.n));
			const double pt = tol + 1e-8 * std::abs(w.p);
			REQUIRE(c, near(b.p, w.p, pt), "pressure" + who() + " is " + num(b.p) + " instead of " + num(w.p) + " (tolerance " + num(pt) + ")");
			if(!r.degenerate.empty() && r.degenerate[i]) continue;
			if(nearDegenerate(r, sa, i, sc.q.l0)) continue;
			const double us = ref::dist(before[i].u, V{}, V_DIM) + r.du1s[i] + r.du2s[i] + r.du3s[i];
			double ut = 1e-7 * us + 4 * g.du2s[i] * (tol > 0 ? pt / tol : 1) + 1e-12 * far / dt;
			if(r.closeTo[i]) ut += 1e-6 * us + 40 * worst * (tol > 0 ? pt / tol : 1);
			REQUIRE(c, nearV(b.u, w.u, ut), "velocity" + who() + " is " + show(b.u) + " instead of " + show(w.u) + " (tolerance " + num(ut) + ")");
			REQUIRE(c, nearV(b.x, w.x, ut * dt + 1e-13 * far), "position" + who() + " is " + show(b.x) + " instead of " + show(w.x));
		}
		double pm = 0; for(double v : r.P) pm = std::max(pm, v);
		if(pm > 0) c.label(tol < 1e-4 * pm ? "pressure decided tightly" : "positive pressure");
		done++; any |= hasFluid(before) && n > 1;
		wide.set(tile(sa));
	}
	if(done == 0) c.discard(why);
	c.nontrivial = any && M > 1;
}
PBT_MAIN("wide", prop)
