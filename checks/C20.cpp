// C20: particles can be added in any batches at any time.
// A plan of additions and steps is applied; additions must append and touch nothing else; every step is compared with the
// reference and with a fresh space holding the same particles; and with the same plan using other batches. In between the
// whole space may be moved to another place in memory, which changes nothing.
#include "compare.hpp"
#include <list>
#include <deque>

static void addAs(sut::Sim& sim, const State& s, int container)
{
	if(container == 0) { sim.add(s); return; }
	if(container == 1) { std::list<OpenMps::Particle> v; for(auto& p : s) v.push_back(sut::particle(p)); sim.c().AddParticles(std::move(v)); return; }
	std::deque<OpenMps::Particle> v; for(auto& p : s) v.push_back(sut::particle(p)); sim.c().AddParticles(std::move(v));
}
static bool same(const Pt& a, const Pt& b)
{
	if(a.type != b.type || a.p != b.p || a.n != b.n) return false;
	for(int k = 0; k < V_DIM; k++) if(a.x[k] != b.x[k] || a.u[k] != b.u[k]) return false;
	return true;
}

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	SceneOpt o; o.maxN = V_DIM == 3 ? 30 : 28;
	Scene sc = genScene(s, o);
	describe(c, sc);
	const std::size_t n = sc.s.size();
	sut::Sim sim(sc.q, sc.fn()), other(sc.q, sc.fn());
	std::size_t have = 0; const int rounds = s.integer(1, 4); int done = 0, batches = 0; bool mid = false, fl = false, moved = false; std::string why, plan;
	// both see the same additions between the same steps, cut into different batches
	for(int k = 0; k < rounds; k++)
	{
		const std::size_t to = (k == rounds - 1 || s.chance(40)) ? n : have + s.upto(n - have);
		const State batch(sc.s.begin() + static_cast<long>(have), sc.s.begin() + static_cast<long>(to));
		addAs(other, batch, 0);
		std::size_t at0 = 0;
		const State before = sim.state();
		while(true)
		{
			const bool last = at0 == batch.size() || s.chance(50);
			const std::size_t e = last ? batch.size() : at0 + s.upto(batch.size() - at0);
			const State now = sim.state();
			if(s.chance(12))
			{
				// the space goes elsewhere and nothing in it changes
				const double t1 = sim.t(), dt1 = sim.dt();
				sim.relocate(); plan += "move; "; moved = true;
				const State here = sim.state();
				REQUIRE(c, here.size() == now.size() && sim.t() == t1 && sim.dt() == dt1, "moving the space changed it");
				for(std::size_t i = 0; i < here.size(); i++) REQUIRE(c, same(here[i], now[i]), "moving the space changed a particle" + at(i));
			}
			const State part(batch.begin() + static_cast<long>(at0), batch.begin() + static_cast<long>(e));
			const double t0 = sim.t();
			addAs(sim, part, s.integer(0, 2)); batches++;
			plan += "add " + num(part.size()) + "; ";
			if(part.empty()) c.label("empty batch");
			const State then = sim.state();
			REQUIRE(c, sim.t() == t0, "adding particles changed the time");
			REQUIRE(c, then.size() == now.size() + part.size(), "after adding " + num(part.size()) + " to " + num(now.size()) + " particles there are " + num(then.size()));
			for(std::size_t i = 0; i < then.size(); i++)
				REQUIRE(c, same(then[i], i < now.size() ? now[i] : part[i - now.size()]), i < now.size() ? "adding particles changed one that was there" + at(i) : "an added particle is not what was added" + at(i));
			at0 = e;
			if(last) break;
		}
		if(k > 0 && to > have) mid = true;
		have = to;
		const int steps = s.integer(0, 2);
		bool stop = false;
		for(int q = 0; q < steps && !stop; q++)
		{
			const State start = sim.state(); const double t0 = sim.t();
			const auto fn = sc.fn();
			sut::Sim fresh(sc.q, [&](std::size_t i, double t, double h) { return fn(i, t + t0, h); }); fresh.add(start);
			const auto e1 = tryStep(other, sc.dt), e2 = tryStep(fresh, sc.dt);
			if(s.chance(12)) { sim.relocate(); plan += "move; "; moved = true; }
			plan += "step; "; c.note("plan", plan);
			try { compareStep(c, sim, sc, sc.dt, CMP_ALL); }
			catch(const pbt::Discard& d) { why = d.why; stop = true; break; }
			REQUIRE(c, e1.empty() && e2.empty(), "a step failed in a space with the same particles only: " + e1 + e2);
			const State a = sim.state(), b = other.state(), f = fresh.state();
			REQUIRE(c, b.size() == a.size() && f.size() == a.size(), "number of particles");
			double um = 0, pm = 0; for(auto& x : a) if(x.type != DISABLED) { um = std::max(um, ref::dist(x.u, V{}, V_DIM)); pm = std::max(pm, x.p); }
			for(std::size_t i = 0; i < a.size(); i++) for(int w = 0; w < 2; w++)
			{
				const Pt& y = w ? f[i] : b[i]; const std::string with = w ? " (fresh space)" : " (other batches)";
				double xm = sc.q.l0; for(int d = 0; d < V_DIM; d++) xm = std::max(xm, std::abs(a[i].x[d]));
				REQUIRE(c, y.type == a[i].type, "type" + at(i) + " differs" + with);
				if(a[i].type == DISABLED) continue;
				REQUIRE(c, near(y.p, a[i].p, 1e-9 * pm) && near(y.n, a[i].n, 1e-9 * (std::abs(a[i].n) + 1)), "pressure or density" + at(i) + " differs" + with + ": " + num(y.p) + " / " + num(a[i].p));
				REQUIRE(c, nearV(y.u, a[i].u, 1e-9 * um + 1e-12 * xm / sc.dt) && nearV(y.x, a[i].x, 1e-9 * um * sc.dt + 1e-12 * xm), "motion" + at(i) + " differs" + with + ": " + show(y.u) + " / " + show(a[i].u));
			}
			done++; fl |= hasFluid(start) && start.size() > 1;
		}
		if(stop) break;
	}
	c.note("plan", plan);
	if(done == 0 && !why.empty()) c.discard(why);
	if(mid) c.label("added between steps");
	if(moved && done > 0) c.label("moved to another place");
	c.nontrivial = fl && batches > 1 && done > 0;
}
PBT_MAIN("C20", prop)
