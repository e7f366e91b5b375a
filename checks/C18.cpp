// C18: results respect the symmetries of the method.
// Metamorphic: a scene and its transformed image are stepped side by side; the image is set to the transformed state
// after each step, so that each step is compared with a known tolerance while both spaces keep their own history.
#include "compare.hpp"

struct Map
{
	std::string kind; double L = 1, T = 1, R = 1; // scales of length, time, density
	V shift{}, boost{}; int mirror = -1; bool turn = false; int ta = 0, tb = 0; std::vector<std::size_t> perm; // image[k] = original[perm[k]]
	V vecR(V v) const
	{
		if(mirror >= 0) v[static_cast<std::size_t>(mirror)] = -v[static_cast<std::size_t>(mirror)];
		if(turn) { const double a = v[static_cast<std::size_t>(ta)], b = v[static_cast<std::size_t>(tb)]; v[static_cast<std::size_t>(ta)] = -b; v[static_cast<std::size_t>(tb)] = a; }
		return v;
	}
	V pos(const V& x) const { V v = vecR(x); for(int a = 0; a < V_DIM; a++) v[a] = v[a] * L + shift[a]; return v; }
	V vel(const V& u) const { V v = vecR(u); for(int a = 0; a < V_DIM; a++) v[a] = v[a] * (L / T) + boost[a]; return v; }
	double prs(double p) const { return p * R * L * L / (T * T); }
	Pt particle(const Pt& p) const { Pt q = p; q.x = pos(p.x); q.u = vel(p.u); q.p = prs(p.p); return q; }
	State state(const State& s) const { State r; for(auto i : perm) r.push_back(particle(s[i])); return r; }
	Params params(const Params& p) const
	{
		Params q = p; q.maxDt *= T; q.g *= L / (T * T); q.rho *= R; q.nu *= L * L / T; q.c *= L / T; q.l0 *= L;
		const V a = pos(p.minX), b = pos(p.maxX);
		for(int k = 0; k < V_DIM; k++) { q.minX[k] = std::min(a[k], b[k]); q.maxX[k] = std::max(a[k], b[k]); }
		return q;
	}
};

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 32 : 30;
	const int kind = s.integer(0, 5);
	o.gravityZero = kind == 4 && (V_DIM == 2 || s.chance(50));
	o.exact = kind == 0 || kind == 2 || kind == 4 ? 25 : 0; // these keep exact alignments exact
	Scene sc = genScene(s, o);
	sc.q.eps = s.pick({1e-10, 1e-11, 1e-9});
	Map m; const std::size_t n = sc.s.size();
	for(std::size_t i = 0; i < n; i++) m.perm.push_back(i);
	switch(kind)
	{
	case 0: m.kind = "renumbering"; for(std::size_t i = n; i > 1; i--) std::swap(m.perm[i - 1], m.perm[s.upto(i - 1)]); break;
	case 1:
		m.kind = "shift";
		if(V_CENTRAL) c.discard("central gravity has a centre");
		for(int a = 0; a < V_DIM; a++) m.shift[a] = s.sym(30) * sc.q.l0;
		break;
	case 2: m.kind = "mirror"; m.mirror = V_DIM == 3 ? s.integer(0, V_CENTRAL ? 2 : 1) : s.integer(0, V_CENTRAL ? 1 : 0); break;
	case 3: m.kind = "scaling"; m.L = s.pick({2.0, 0.5, 10.0, 1.7, 0.013}); m.T = s.pick({1.0, 2.0, 0.3, 7.0}); m.R = s.pick({1.0, 4.0, 0.1}); break;
	case 4:
		m.kind = "quarter turn"; m.turn = true; m.ta = 0; m.tb = 1;
		if(V_DIM == 3 && (sc.q.g == 0 || V_CENTRAL)) { const int w = s.integer(0, 2); m.ta = w == 0 ? 0 : w == 1 ? 1 : 0; m.tb = w == 0 ? 1 : 2; }
		break;
	default: m.kind = "common velocity"; for(int a = 0; a < V_DIM; a++) m.boost[a] = s.sym(3) * sc.q.l0 / sc.dt; break;
	}
	c.label(m.kind); describe(c, sc); c.note("transformation", m.kind);
	const auto fn = sc.fn();
	sut::Sim a(sc.q, fn);
	const Params q2 = m.params(sc.q);
	double now = 0; // time of the original at the start of the step (the image's law is asked with the image's time)
	sut::Sim b(q2, [&](std::size_t k, double t, double h)
	{
		V x = m.pos(fn(m.perm[k], t / m.T, h / m.T));
		for(int d = 0; d < V_DIM; d++) x[d] += m.boost[d] * h;
		return x;
	});
	(void)now;
	a.add(sc.s); b.add(m.state(sc.s));
	const int steps = s.integer(1, 4); int done = 0; bool inf = false; std::string why;
	for(int k = 0; k < steps; k++)
	{
		const State before = a.state();
		const double t0 = a.t();
		const bool automatic = kind != 5 && s.chance(40);
		double dt = sc.dt;
		if(automatic)
		{
			const auto kk = ref::constants(sc.q, ref::here()); const double top = topSpeed(before);
			dt = top == 0 ? kk.maxDt : std::min(kk.maxDt, kk.maxDx / top);
		}
		if(m.mirror >= 0 || m.turn)
		{
			// the grid reaches beyond the domain at the maximum sides only: departures are no symmetric affair
			bool out = false;
			for(auto& p : before) if(p.type != DISABLED) for(int d = 0; d < V_DIM; d++) if(p.x[d] < sc.q.minX[d] + 1e-9 * sc.q.l0) out = true;
			if(out) { why = "particle outside the domain"; break; }
		}
		ref::Step r(before, sc.q, t0, dt, fn);
		if(!r.ambiguous.empty()) { why = r.ambiguous; break; }
		r.solve();
		if(r.skin) { why = "pair outside the searched range came within reach"; break; }
		const auto ea = tryStep(a, automatic ? 0 : dt), eb = tryStep(b, automatic ? 0 : dt * m.T);
		if(ea.find("block") != std::string::npos || eb.find("block") != std::string::npos) { why = "overfull block"; break; }
		if(!r.solvable) { why = "singular pressure equation"; break; }
		if(!ea.empty() || !eb.empty())
		{
			if(!r.mustSolve()) { why = "conjugate gradients did not converge"; break; }
			c.fail("step raised an error on a well-conditioned scene: " + ea + eb);
		}
		if(automatic) REQUIRE(c, near(b.dt(), a.dt() * m.T, 1e-12 * b.dt()), m.kind + ": the automatic step is " + num(b.dt()) + " instead of " + num(a.dt() * m.T));
		const State sa = a.state(), sb = b.state();
		double tol = V_EXPLICIT ? 1e-9 * sc.q.c * sc.q.c * sc.q.rho * 10 : 2 * pressureTol(r, before, sc.q.eps);
		const double boostN = ref::dist(m.boost, V{}, V_DIM) * m.T / m.L;
		if(!V_EXPLICIT)
		{
			// rounding of the right-hand side, which for a common velocity is that of the faster scene
			double bm = 0; for(double v : r.bs) bm = std::max(bm, v);
			if(kind == 5)
			{
				State fast = before; for(auto& p : fast) for(int d = 0; d < V_DIM; d++) p.u[d] += m.boost[d];
				ref::Step rb(fast, q2, t0, dt, [&](std::size_t i, double t, double h) { V x = fn(i, t, h); for(int d = 0; d < V_DIM; d++) x[d] += m.boost[d] * h; return x; });
				rb.solve(); for(double v : rb.bs) bm = std::max(bm, v);
			}
			tol += 1e-10 * r.normInv * bm * (1 + boostN * dt / sc.q.l0 / sc.q.courant * 10);
		}
		std::vector<double> p; for(auto& x : sa) p.push_back(x.p);
		r.condLimit = 300; // rounding of the transformed positions is amplified by its square
		r.gradient(p, r.x1, r.u1); r.stabilise();
		if(!r.ambiguous.empty()) { why = r.ambiguous; break; }
		if(r.skin) { why = "pair outside the searched range came within reach"; break; }
		ref::Step g = r; g.gradient(std::vector<double>(n, tol), r.x1, r.u1);
		double worst = 0; for(std::size_t i = 0; i < n; i++) worst = std::max(worst, g.du2s[i]);
		double far = sc.q.l0; for(int d = 0; d < V_DIM; d++) far = std::max({far, std::abs(sc.q.minX[d]), std::abs(sc.q.maxX[d]), std::abs(m.shift[d]) / m.L, std::abs(m.boost[d]) * dt});
		for(std::size_t kk = 0; kk < n; kk++)
		{
			const std::size_t i = m.perm[kk];
			Pt w = m.particle(sa[i]);
			for(int d = 0; d < V_DIM; d++) w.x[d] += m.boost[d] * dt;
			if(sa[i].type == DISABLED)
			{
				REQUIRE(c, sb[kk].type == DISABLED, m.kind + ": particle " + num(i) + " is disabled in one scene only");
				continue;
			}
			REQUIRE(c, sb[kk].type == w.type, m.kind + ": type" + at(i) + " differs");
			REQUIRE(c, near(sb[kk].n, w.n, 1e-9 * (std::abs(w.n) + r.k.n0)), m.kind + ": density" + at(i) + " is " + num(sb[kk].n) + " instead of " + num(w.n));
			// densities' rounding feeds the pressures: positions are only known to far * 1e-16
			const double pt = tol + 1e-9 * std::abs(sa[i].p);
			REQUIRE(c, near(sb[kk].p, w.p, m.prs(pt)), m.kind + ": pressure" + at(i) + " is " + num(sb[kk].p) + " instead of " + num(w.p) + " (tolerance " + num(m.prs(pt)) + ")");
			if(!r.degenerate.empty() && r.degenerate[i]) continue;
			if(nearDegenerate(r, sa, i, sc.q.l0)) continue;
			const double us = ref::dist(before[i].u, V{}, V_DIM) + r.du1s[i] + r.du2s[i] + r.du3s[i] + boostN;
			double ut = 1e-8 * us + 4 * g.du2s[i] * (tol > 0 ? pt / tol : 1) + 1e-12 * far / dt;
			if(r.closeTo[i]) ut += 1e-6 * us + 40 * worst * (tol > 0 ? pt / tol : 1);
			if(ut > 1e-3 * sc.q.courant * sc.q.l0 / dt) { c.label("motion not decided tightly"); }
			REQUIRE(c, nearV(sb[kk].u, w.u, ut * m.L / m.T), m.kind + ": velocity" + at(i) + " is " + show(sb[kk].u) + " instead of " + show(w.u) + " (tolerance " + num(ut * m.L / m.T) + ")");
			REQUIRE(c, nearV(sb[kk].x, w.x, (ut * dt + 1e-13 * far) * m.L), m.kind + ": position" + at(i) + " is " + show(sb[kk].x) + " instead of " + show(w.x));
		}
		done++; inf |= hasFluid(before) && n > 1;
		if(r.close) c.label("repulsion acted");
		double pm = 0; for(double v : r.P) pm = std::max(pm, v);
		if(pm > 0) c.label(tol < 1e-5 * pm ? "pressure decided tightly" : "positive pressure");
		if(kind == 5) { // the boosted law is relative to the original's positions: keep the image in step
			State t = m.state(a.state()); b.set(t); }
		else b.set(m.state(a.state()));
	}
	if(done == 0) c.discard(why);
	c.nontrivial = inf;
}
PBT_MAIN("C18", prop)
