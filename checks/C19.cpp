// C19: thread count and acceleration options do not change the results.
// The same history is run with different numbers of OpenMP threads (and, in builds without OpenMP or with the other
// linear-algebra back end, without them); every run is held against the same reference step and against each other, and
// repeated. Large scenes reach the parallel paths of the linear algebra. Under ThreadSanitizer the same histories look
// for data races (C19_RACE: no reference, larger scenes, so that threads do overlap).
#include "compare.hpp"
#ifdef _OPENMP
#include <omp.h>
static void threads(int n) { omp_set_num_threads(n); }
#else
static void threads(int) {}
#endif

static bool identical(const State& a, const State& b, std::size_t& where)
{
	if(a.size() != b.size()) { where = a.size(); return false; }
	const auto eq = [](double x, double y) { return x == y || (x != x && y != y); };
	for(std::size_t i = 0; i < a.size(); i++)
	{
		where = i;
		if(a[i].type != b[i].type || !eq(a[i].p, b[i].p) || !eq(a[i].n, b[i].n)) return false;
		for(int k = 0; k < V_DIM; k++) if(!eq(a[i].x[k], b[i].x[k]) || !eq(a[i].u[k], b[i].u[k])) return false;
	}
	return true;
}

// a tank or block of fluid of roughly n particles with jitter; spacing keeps pairs apart
static Scene big(pbt::Source& s, std::size_t n)
{
	SceneOpt o; Scene sc; sc.q = genParams(s, o, sc.dt);
	sc.q.ratio = s.real(1.6, V_DIM == 3 ? 2.1 : 2.6);
	sc.q.eps = 1e-8;
	const double l = sc.q.l0, sp = s.real(0.97, 1.05) * l, jit = s.real(0.001, 0.02) * l, vmax = 0.3 * sc.q.courant * l / sc.dt;
	const std::size_t w = static_cast<std::size_t>(std::max(2.0, std::pow(double(n), 1.0 / V_DIM) * (V_DIM == 2 ? s.real(0.5, 2.0) : 1)));
	const std::size_t d = V_DIM == 3 ? w : 1, h = std::max<std::size_t>(1, n / (w * d));
	const bool tank = s.chance(60);
	// cheap deterministic noise: the scene is large, the choice sequence stays short
	std::uint64_t z = s.upto(1u << 30);
	const auto noise = [&](double a) { z = z * 6364136223846793005ull + 1442695040888963407ull; return a * (double(z >> 11) / 4503599627370496.0 - 1.0); };
	for(std::size_t i = 0; i < w; i++) for(std::size_t k = 0; k < d; k++) for(std::size_t j = 0; j < h; j++)
	{
		Pt p; const std::size_t idx[3] = {i, V_DIM == 3 ? k : j, j};
		for(int a = 0; a < V_DIM; a++) { p.x[a] = idx[a] * sp + noise(jit); p.u[a] = noise(vmax / std::sqrt(double(V_DIM))); }
		if(tank) p.type = j < 2 ? DUMMY : (j == 2 || i == 0 || i + 1 == w || (V_DIM == 3 && (k == 0 || k + 1 == d))) ? WALL : FLUID;
		if(p.type == FLUID && noise(1) > 0.98) p.type = DISABLED;
		p.p = (noise(0.5) + 0.5) * sc.q.rho * l * l / (sc.dt * sc.dt) * 0.01;
		sc.s.push_back(p);
	}
	sc.law = Law::From(sc.s);
	for(auto& v : sc.law.vel) v[0] = vmax * 0.3;
	genDomain(s, sc, 1);
	sc.kind = tank ? "large-tank" : "large-block";
	return sc;
}

// without a reference: many particles
static void large(pbt::Case& c, std::size_t n, bool huge)
{
	auto& s = c.s;
	Scene sc = big(s, n);
	c.note("parameters", show(sc.q)); c.note("dt", sc.dt); c.note("arrangement", sc.kind); c.note("number of particles", sc.s.size()); c.note("first particles", show(sc.s));
	c.label(sc.kind); c.label(sc.s.size() > 5000 ? "n>5000" : sc.s.size() > 1000 ? "1000<n<=5000" : "n<=1000");
	const int steps = huge ? 1 : s.integer(1, 3);
	const int T = s.pick({2, 4, 3, 8, 5});
	c.note("threads", T);
	c.nontrivial = sc.s.size() > 8;
#ifdef C19_RACE
	threads(T);
	sut::Sim sim(sc.q, sc.fn()); sim.add(sc.s);
	for(int k = 0; k < steps; k++) { const auto e = tryStep(sim, sc.dt); if(!e.empty()) { c.label("step raised an error"); break; } }
	c.checks++;
#else
	sut::Sim one(sc.q, sc.fn()), many(sc.q, sc.fn());
	one.add(sc.s); many.add(sc.s);
	for(int k = 0; k < steps; k++)
	{
		// both start from the same state
		if(k > 0) { const State st = one.state(); many.set(st); }
		const State before = one.state();
		threads(1); const auto e1 = tryStep(one, sc.dt);
		threads(T); const auto e2 = tryStep(many, sc.dt);
		threads(1);
		if(!e1.empty() || !e2.empty())
		{
			// the solver may give up on either; anything else must agree
			if(e1.find("block") != std::string::npos || e2.find("block") != std::string::npos) REQUIRE(c, e1 == e2, "errors differ: \"" + e1 + "\" with one thread, \"" + e2 + "\" with " + num(T));
			c.label("step raised an error"); break;
		}
		const State a = one.state(), b = many.state();
		for(std::size_t i = 0; i < a.size(); i++)
		{
			REQUIRE(c, a[i].type == b[i].type, "with " + num(T) + " threads the type" + at(i) + " differs");
			REQUIRE(c, near(a[i].n, b[i].n, 1e-9 * (std::abs(a[i].n) + 1)), "with " + num(T) + " threads the density" + at(i) + " is " + num(b[i].n) + " instead of " + num(a[i].n));
			REQUIRE(c, std::isfinite(b[i].p) && b[i].p >= 0, "with " + num(T) + " threads the pressure" + at(i) + " is " + num(b[i].p));
		}
		double dp = 0, pm = 0;
		for(std::size_t i = 0; i < a.size(); i++) if(a[i].type == FLUID || a[i].type == WALL) { dp = std::max(dp, std::abs(a[i].p - b[i].p)); pm = std::max(pm, std::abs(a[i].p)); }
#if !V_EXPLICIT
		// both solve the same system to the same tolerance
		auto& P = sut::Access::Ppe(one.c()); auto& Q = sut::Access::Ppe(many.c());
		REQUIRE(c, P.b.size() == Q.b.size() && P.b.size() == a.size(), "with " + num(T) + " threads the pressure equation has another size");
		std::vector<double> x1(a.size()), x2(a.size()), b1(a.size()), b2(a.size());
#if V_VIENNACL
		viennacl::copy(P.x.begin(), P.x.end(), x1.begin()); viennacl::copy(Q.x.begin(), Q.x.end(), x2.begin());
		viennacl::copy(P.b.begin(), P.b.end(), b1.begin()); viennacl::copy(Q.b.begin(), Q.b.end(), b2.begin());
#else
		for(std::size_t i = 0; i < a.size(); i++) { x1[i] = P.x(i); x2[i] = Q.x(i); b1[i] = P.b(i); b2[i] = Q.b(i); }
#endif
		std::vector<std::map<unsigned int, double>> m1(a.size()), m2(a.size());
		const auto take = [&](auto& A, auto& m)
		{
#if V_VIENNACL
			viennacl::copy(A, m);
#else
			for(auto i1 = A.begin1(); i1 != A.end1(); ++i1) for(auto i2 = i1.begin(); i2 != i1.end(); ++i2) m[i2.index1()][static_cast<unsigned int>(i2.index2())] = *i2;
#endif
		};
		take(P.A, m1); take(Q.A, m2);
		double bs = 0, as = 0;
		for(double v : b1) bs = std::max(bs, std::abs(v));
		double r0 = 0, ra = 0, rb = 0, xs = 0;
		for(std::size_t i = 0; i < a.size(); i++)
		{
			double d = 0; for(auto& e : m1[i]) d = std::max(d, std::abs(e.second));
			as = std::max(as, d);
			for(auto& e : m1[i]) { const auto f = m2[i].find(e.first); const double v = f == m2[i].end() ? 0 : f->second; REQUIRE(c, near(e.second, v, 1e-9 * d), "with " + num(T) + " threads the coefficient of particle " + num(e.first) + " in the equation" + at(i) + " is " + num(v) + " instead of " + num(e.second)); }
			for(auto& e : m2[i]) if(!m1[i].count(e.first)) REQUIRE(c, near(e.second, 0, 1e-9 * d), "with " + num(T) + " threads the equation" + at(i) + " refers to particle " + num(e.first));
			REQUIRE(c, near(b1[i], b2[i], 1e-8 * bs), "with " + num(T) + " threads the right-hand side" + at(i) + " is " + num(b2[i]) + " instead of " + num(b1[i]));
			double s0 = b1[i], s1 = b1[i], s2 = b1[i];
			for(auto& e : m1[i]) { s0 -= e.second * (a[e.first].type == FLUID || a[e.first].type == WALL ? before[e.first].p : 0); s1 -= e.second * x1[e.first]; s2 -= e.second * x2[e.first]; xs += std::pow(e.second * x1[e.first], 2); }
			r0 += s0 * s0; ra += s1 * s1; rb += s2 * s2;
		}
		const double tol = 10 * sc.q.eps * std::sqrt(r0) + 1e-10 * (std::sqrt(xs) + bs * std::sqrt(double(a.size())));
		REQUIRE(c, std::sqrt(ra) <= tol, "with one thread the residual is " + num(std::sqrt(ra)) + " (initially " + num(std::sqrt(r0)) + ")");
		REQUIRE(c, std::sqrt(rb) <= tol, "with " + num(T) + " threads the residual is " + num(std::sqrt(rb)) + " (initially " + num(std::sqrt(r0)) + ")");
		for(std::size_t i = 0; i < a.size(); i++) if(b[i].type == FLUID || b[i].type == WALL) REQUIRE(c, near(b[i].p, std::max(0.0, x2[i]), 1e-12 * pm), "with " + num(T) + " threads the pressure" + at(i) + " is " + num(b[i].p) + " but the solution " + num(x2[i]));
#endif
		// motion: what the difference of pressures allows (weights over r sum to less than 60 / spacing in these arrangements)
		const double ut = sc.dt / sc.q.rho * 200 / sc.q.l0 * dp * 2, us = sc.q.courant * sc.q.l0 / sc.dt;
		for(std::size_t i = 0; i < a.size(); i++)
		{
			const double mine = ref::dist(a[i].u, V{}, V_DIM) + us;
			REQUIRE(c, nearV(a[i].u, b[i].u, ut + 1e-8 * mine + 1e-8 * sc.dt / sc.q.rho / sc.q.l0 * pm * 100), "with " + num(T) + " threads the velocity" + at(i) + " is " + show(b[i].u) + " instead of " + show(a[i].u));
			REQUIRE(c, nearV(a[i].x, b[i].x, (ut + 1e-8 * mine + 1e-8 * sc.dt / sc.q.rho / sc.q.l0 * pm * 100) * sc.dt + 1e-12 * (ref::dist(a[i].x, V{}, V_DIM) + sc.q.l0)), "with " + num(T) + " threads the position" + at(i) + " is " + show(b[i].x) + " instead of " + show(a[i].x));
		}
		if(pm > 0) c.label("positive pressure");
		if(pm > 0 && dp < 1e-4 * pm) c.label("pressures agree tightly");
		// the next steps stay calm
		if(topSpeed(a) * sc.dt > sc.q.courant * sc.q.l0) break;
	}
#endif
}

static void prop(pbt::Case& c)
{
	auto& s = c.s;
#ifdef C19_RACE
	large(c, static_cast<std::size_t>(s.integer(60, 500)), false);
#else
	const int what = s.integer(0, 99);
	if(V_VIENNACL && what >= 97) { large(c, static_cast<std::size_t>(s.integer(5100, 6500)), true); return; }
	if(what >= 80) { large(c, static_cast<std::size_t>(s.integer(100, 900)), false); return; }
	SceneOpt o; o.maxN = 60;
	Scene sc = genScene(s, o); describe(c, sc);
	const int T = s.pick({2, 4, 3, 8, 5}), steps = s.integer(1, 3);
	c.note("threads", T);
	threads(1);
	sut::Sim one(sc.q, sc.fn()), again(sc.q, sc.fn()), many(sc.q, sc.fn());
	one.add(sc.s); again.add(sc.s); many.add(sc.s);
	int done = 0; std::string why;
	for(int k = 0; k < steps; k++)
	{
		if(topSpeed(one.state()) * sc.dt > sc.q.courant * sc.q.l0 * 3) break;
		std::string e1, e2;
		threads(1); e1 = tryStep(again, sc.dt);
		try
		{
			threads(1); compareStep(c, one, sc, sc.dt, CMP_ALL);
		}
		catch(const pbt::Discard& d) { why = d.why; }
		std::size_t w = 0;
		if(e1.empty() && one.t() == again.t()) { const State a = one.state(), b = again.state(); REQUIRE(c, identical(a, b, w), "repeating the run gives another result" + at(w)); }
		if(!why.empty()) break;
		try { threads(T); compareStep(c, many, sc, sc.dt, CMP_ALL); threads(1); }
		catch(const pbt::Discard& d) { why = d.why; break; }
		done++;
		{ const State a = one.state(); many.set(a); }
	}
	threads(1);
	if(!done) c.discard(why.empty() ? "too fast" : why);
	c.nontrivial = sc.s.size() > 1 && hasFluid(sc.s);
#endif
}
PBT_MAIN("C19", prop)
