// C04: an overfull search block is an error, never a silent loss.
// Stateful model of the grid: store / clear sequences against per-block sets with exact capacity, plus whole
// regular arrangements (which must fit) and whole spaces with an overfull block (whose step must fail).
#include "compare.hpp"
using B = std::array<long, 3>;

static std::size_t countOf(const OpenMps::Grid& g, const V& x)
{
	const auto v = sut::vec(x);
#if V_DIM == 3
	return g.ParticleCount(g.Block<OpenMps::AXIS_X>(v), g.Block<OpenMps::AXIS_Y>(v), g.Block<OpenMps::AXIS_Z>(v));
#else
	return g.ParticleCount(g.Block<OpenMps::AXIS_X>(v), g.Block<OpenMps::AXIS_Z>(v));
#endif
}

static void modelCase(pbt::Case& c)
{
	auto& s = c.s;
	const double l0 = s.pick({0.1, 1.0, 0.01, 0.003});
	const double NL = l0 * s.real(1.0, V_DIM == 3 ? 2.9 : 4.9);
	int blocks[3] = {1, 1, 1}; V lo{}, hi{};
	for(int a = 0; a < V_DIM; a++)
	{
		blocks[a] = s.integer(1, V_DIM == 3 ? 4 : 6);
		lo[a] = s.chance(60) ? s.sym(30) * l0 : 0.0; hi[a] = lo[a] + NL * (blocks[a] - s.real(0.0, 0.5));
	}
	OpenMps::Grid grid(NL, l0, sut::vec(lo), sut::vec(hi));
	const std::size_t cap = grid.MaxParticles();
	const double regular = std::pow(std::floor(NL / l0 * (1 - 1e-12)) + 1, V_DIM);
	REQUIRE(c, static_cast<double>(cap) >= regular, "a block holds at most " + num(cap) + " particles, but a regular arrangement puts " + num(regular) + " into one (block length " + num(NL / l0) + " spacings)");
	const auto centre = [&](const B& b) { V p{}; for(int a = 0; a < V_DIM; a++) p[a] = lo[a] + NL * (static_cast<double>(b[a]) + 0.3); return p; };
	const auto within = [&](const B& b) { V p{}; for(int a = 0; a < V_DIM; a++) p[a] = std::min(hi[a], lo[a] + NL * (static_cast<double>(b[a]) + s.real(0.01, 0.99))); return p; };
	// a few blocks of interest, so that they fill up
	const int hot = s.integer(1, 3); std::vector<B> hots;
	for(int i = 0; i < hot; i++)
	{
		B b{}; for(int a = 0; a < V_DIM; a++) b[a] = s.integer(0, blocks[a] - 1);
		bool reach = true; for(int a = 0; a < V_DIM; a++) if(lo[a] + NL * (static_cast<double>(b[a]) + 0.3) >= hi[a]) reach = false;
		if(reach) hots.push_back(b);
	}
	if(hots.empty()) { hots.push_back(B{}); }
	std::map<B, std::vector<std::size_t>> model; std::set<B> overfull;
	std::size_t id = 0; int clears = 0, refused = 0; bool full = false;
	const auto verify = [&](const char* when)
	{
		std::size_t total = 0; for(auto& m : model) total += m.second.size();
		std::set<B> all(hots.begin(), hots.end()); for(auto& m : model) all.insert(m.first);
		for(auto& b : all)
		{
			bool reach = true; for(int a = 0; a < V_DIM; a++) if(lo[a] + NL * (static_cast<double>(b[a]) + 0.3) > hi[a]) reach = false;
			if(!reach) continue;
			const auto p = centre(b);
			const auto m = model.find(b);
			const std::size_t want = m == model.end() ? 0 : m->second.size();
			if(!overfull.count(b)) REQUIRE(c, countOf(grid, p) == want, std::string("a block counts ") + num(countOf(grid, p)) + " particles instead of " + num(want) + " " + when);
			bool bad = false; for(auto& o : overfull) { bool nb = true; for(int a = 0; a < V_DIM; a++) if(std::abs(o[a] - b[a]) > 1) nb = false; bad |= nb; }
			if(bad) continue;
			std::vector<std::size_t> expect, got;
			for(auto& mm : model) { bool nb = true; for(int a = 0; a < V_DIM; a++) if(std::abs(mm.first[a] - b[a]) > 1) nb = false; if(nb) expect.insert(expect.end(), mm.second.begin(), mm.second.end()); }
			auto it = grid.cbegin(sut::vec(p)); const auto end = grid.cend();
			for(; !(it == end); ++it) { got.push_back(*it); REQUIRE(c, got.size() <= total, std::string("more particles visited than stored ") + when); }
			std::sort(expect.begin(), expect.end()); std::sort(got.begin(), got.end());
			REQUIRE(c, expect == got, std::string("iteration gives ") + num(got.size()) + " particles, expected " + num(expect.size()) + " (or other ones) " + when);
		}
	};
	grid.Clear();
	const int ops = s.integer(1, 8);
	std::string trace;
	for(int k = 0; k < ops; k++)
	{
		const auto op = s.upto(9);
		if(op == 0) { grid.Clear(); model.clear(); overfull.clear(); clears++; trace += "clear; "; verify("after clearing"); continue; }
		// store a run of particles in one block, or all over the grid
		const bool all = op <= 3;
		const B hotb = hots[s.upto(hots.size() - 1)];
		const bool overrun = op == 9 || op == 8;
		const std::size_t have = model[hotb].size();
		std::size_t n = all ? static_cast<std::size_t>(s.integer(1, 25)) : overrun ? cap - std::min(cap, have) + 1 : static_cast<std::size_t>(s.integer(1, static_cast<int>(cap)));
		trace += (all ? "scatter " : "fill ") + num(n) + "; ";
		for(std::size_t i = 0; i < n; i++)
		{
			B b = hotb; V p{};
			if(all)
			{
				for(int a = 0; a < V_DIM; a++) b[a] = s.integer(0, blocks[a] - 1);
				p = within(b);
				for(int a = 0; a < V_DIM; a++) b[a] = static_cast<long>(std::floor((p[a] - lo[a]) / NL));
				bool edge = false; for(int a = 0; a < V_DIM; a++) { const double f = (p[a] - lo[a]) / NL; if(std::abs(f - std::round(f)) < 1e-9) edge = true; }
				if(edge) continue;
			}
			else
			{
				p = within(b);
				bool in = true; for(int a = 0; a < V_DIM; a++) { const double f = (p[a] - lo[a]) / NL; if(std::floor(f) != b[a] || std::abs(f - std::round(f)) < 1e-9) in = false; }
				if(!in) continue;
			}
			if(overfull.count(b)) continue;
			auto& m = model[b];
			bool ok = false, threw = false; std::string what;
			try { ok = grid.Store(sut::vec(p), id); } catch(const std::runtime_error& e) { threw = true; what = e.what(); }
			if(m.size() >= cap)
			{
				REQUIRE(c, threw, "particle number " + num(m.size() + 1) + " is taken into a block that holds at most " + num(cap));
				overfull.insert(b); refused++; full = true; id++;
				continue;
			}
			REQUIRE(c, !threw, "a block that holds " + num(m.size()) + " of at most " + num(cap) + " particles refuses another: " + what);
			REQUIRE(c, ok, "a position inside the domain is refused: " + show(p));
			m.push_back(id); id++;
			if(m.size() == cap) full = true;
		}
		verify("after storing");
	}
	c.note("grid", show(lo) + ".." + show(hi) + " block " + num(NL) + " = " + num(NL / l0) + " spacings, capacity " + num(cap)); c.note("operations", trace);
	c.label("grid model"); if(clears) c.label("cleared in between"); if(refused) c.label("overfull block"); if(full) c.label("full block");
	c.nontrivial = full || (clears && id > 10);
}

// complete lattices with the initial spacing always fit
static void latticeCase(pbt::Case& c)
{
	auto& s = c.s;
	const double l0 = s.pick({0.1, 1.0, 0.01, 0.003, 0.025});
	const double courant = s.pick({0.1, 0.2, 0.05, 0.4});
	const double ratio = s.chance(40) ? s.pick({2.1, 2.4, 3.1, 1.5, 2.0, 3.0, 2.5}) : s.real(1.0, V_DIM == 3 ? 2.4 : 4.0);
	const double NL = ratio * l0 * (1 + 2 * courant);
	V lo{}, hi{}, off{};
	for(int a = 0; a < V_DIM; a++)
	{
		lo[a] = s.chance(60) ? s.sym(30) * l0 : 0.0; hi[a] = lo[a] + NL * s.real(1, V_DIM == 3 ? 3 : 5);
		off[a] = l0 * (s.chance(50) ? 0.0 : s.real(0, 1));
	}
	OpenMps::Grid grid(NL, l0, sut::vec(lo), sut::vec(hi)); grid.Clear();
	std::size_t n = 0; int m[3] = {1, 1, 1};
	for(int a = 0; a < V_DIM; a++) m[a] = static_cast<int>((hi[a] - lo[a] - off[a]) / l0) + 1;
	for(int i = 0; i < m[0]; i++) for(int j = 0; j < m[1]; j++) for(int k = 0; k < m[2]; k++)
	{
		V p{}; const int idx[3] = {i, j, k};
		for(int a = 0; a < V_DIM; a++) p[a] = lo[a] + off[a] + idx[a] * l0;
		bool in = true; for(int a = 0; a < V_DIM; a++) if(p[a] > hi[a]) in = false;
		if(!in) continue;
		bool ok = false; std::string what;
		try { ok = grid.Store(sut::vec(p), n); } catch(const std::exception& e) { what = e.what(); }
		REQUIRE(c, what.empty(), "a regular arrangement at the initial spacing does not fit: " + what + " at particle " + num(n) + ", block " + num(NL / l0) + " spacings, capacity " + num(grid.MaxParticles()));
		REQUIRE(c, ok, "a position inside the domain is refused: " + show(p)); n++;
	}
	c.note("lattice", num(n) + " particles, spacing " + num(l0) + ", block " + num(NL / l0) + " spacings"); c.label("regular lattice");
	c.nontrivial = n > 8;
}

// a space with an overfull block: the step must raise an error; with exactly the capacity it must not
static void spaceCase(pbt::Case& c)
{
	auto& s = c.s;
	Params q; q.l0 = s.pick({0.1, 1.0}); q.courant = s.pick({0.1, 0.2}); q.ratio = s.real(1.05, V_DIM == 3 ? 1.9 : 3.0); q.g = 0; q.maxDt = 1e-3;
	const double NL = q.ratio * q.l0 * (1 + 2 * q.courant);
	for(int a = 0; a < V_DIM; a++) { q.minX[a] = s.sym(10) * q.l0; q.maxX[a] = q.minX[a] + NL * s.integer(2, 4); }
	OpenMps::Grid probe(NL, q.l0, sut::vec(q.minX), sut::vec(q.maxX));
	const std::size_t cap = probe.MaxParticles();
	const bool over = s.chance(60);
	const std::size_t n = over ? cap + 1 + s.upto(4) : cap;
	B b{}; for(int a = 0; a < V_DIM; a++) b[a] = s.integer(0, 1);
	State st;
	const int other = s.integer(0, 6);
	for(std::size_t i = 0; i < n; i++)
	{
		// dummies only: nothing but the search happens to them
		Pt p; p.type = DUMMY;
		for(int a = 0; a < V_DIM; a++) p.x[a] = q.minX[a] + NL * (static_cast<double>(b[a]) + 0.05 + 0.9 * (static_cast<double>(s.upto(1000)) + 0.5) / 1001);
		st.push_back(p);
	}
	for(int i = 0; i < other; i++)
	{
		Pt p; p.type = s.pick({DUMMY, DISABLED});
		if(p.type == DISABLED) for(int a = 0; a < V_DIM; a++) p.x[a] = q.minX[a] + NL * (static_cast<double>(b[a]) + 0.5);
		else for(int a = 0; a < V_DIM; a++) p.x[a] = q.minX[a] + NL * (static_cast<double>(1 - b[a]) + s.real(0.05, 0.95));
		st.insert(st.begin() + static_cast<long>(s.upto(st.size())), p);
	}
	std::size_t in = 0; for(auto& p : st) { if(p.type == DISABLED) continue; bool same = true; for(int a = 0; a < V_DIM; a++) if(static_cast<long>(std::floor((p.x[a] - q.minX[a]) / NL)) != b[a]) same = false; in += same; }
	const Law law = Law::From(st);
	sut::Sim sim(q, [law](std::size_t i, double t, double dt) { return law(i, t, dt); });
	sim.add(st);
	bool threw = false; std::string what;
	try { sim.search(); } catch(const std::runtime_error& e) { threw = true; what = e.what(); }
	c.note("particles in the block", in); c.note("capacity", cap); c.note("parameters", show(q));
	if(in > cap) REQUIRE(c, threw, num(in) + " particles in one block of capacity " + num(cap) + " raise no error");
	else REQUIRE(c, !threw, num(in) + " particles in one block of capacity " + num(cap) + " raise an error: " + what);
	if(in > cap) { sut::Sim sim2(q, [law](std::size_t i, double t, double dt) { return law(i, t, dt); }); sim2.add(st); const auto e = tryStep(sim2, 1e-4); REQUIRE(c, !e.empty(), "the step of a space with an overfull block raises no error"); }
	c.label(in > cap ? "space, overfull block" : "space, full block"); c.nontrivial = true;
}

static void prop(pbt::Case& c)
{
	const auto k = c.s.upto(99);
	if(k < 60) modelCase(c); else if(k < 85) latticeCase(c); else spaceCase(c);
}
PBT_MAIN("C04", prop)
