// C01: neighbour search finds exactly the particles in range.
// Grid level: what iteration around a position visits, against the set of stored particles.
// Space level: neighbour lists after rounds of moving, leaving and searching, against brute-force distances.
#include "compare.hpp"

static double blockPos(pbt::Source& s, double lo, double hi, double NL)
{
	// anywhere in [lo, hi], often next to block edges or the border
	const double w = hi - lo;
	switch(s.upto(5))
	{
	case 0: case 1: case 2: return lo + w * s.real(0, 1);
	case 3: return std::min(hi, lo + NL * static_cast<double>(s.upto(static_cast<std::uint64_t>(w / NL))) * (1 + s.pick({0.0, 1e-13, 1e-6, -1e-6})) );
	case 4: return lo + std::min(w, NL * s.real(0, 1));
	default: return std::max(lo, hi - NL * s.real(0, 1));
	}
}

static void gridCase(pbt::Case& c)
{
	auto& s = c.s;
	const double l0 = s.pick({0.1, 1.0, 0.01, 0.003});
	const double NL = l0 * s.real(1.0, V_DIM == 3 ? 3.0 : 5.0);
	V lo{}, hi{};
	for(int a = 0; a < V_DIM; a++)
	{
		lo[a] = s.chance(60) ? s.sym(30) * l0 : 0.0;
		// exact multiples of the block length matter
		hi[a] = lo[a] + NL * (s.chance(30) ? static_cast<double>(s.integer(1, V_DIM == 3 ? 5 : 9)) : s.real(0.05, V_DIM == 3 ? 5 : 9));
	}
	OpenMps::Grid grid(NL, l0, sut::vec(lo), sut::vec(hi));
	grid.Clear();
	const int n = s.integer(0, V_DIM == 3 ? 60 : 40);
	std::vector<V> x; std::vector<bool> in;
	const bool clumped = s.chance(30);
	V centre{}; for(int a = 0; a < V_DIM; a++) centre[a] = blockPos(s, lo[a], hi[a], NL);
	for(int i = 0; i < n; i++)
	{
		V p{};
		for(int a = 0; a < V_DIM; a++)
		{
			p[a] = blockPos(s, lo[a], hi[a], NL);
			if(clumped) p[a] = std::min(hi[a], std::max(lo[a], centre[a] + s.sym(1.5) * NL));
		}
		bool ok = false;
		try { ok = grid.Store(sut::vec(p), x.size()); }
		catch(const std::exception&) { c.discard("overfull block"); }
		REQUIRE(c, ok, "a position inside the domain is refused: " + show(p) + " in " + show(lo) + ".." + show(hi) + " with block length " + num(NL));
		x.push_back(p);
	}
	c.note("grid", show(lo) + ".." + show(hi) + " block " + num(NL)); c.note("stored", x.size());
	std::size_t visitedTotal = 0, pairs = 0;
	const std::size_t around = x.size() + 3;
	for(std::size_t q = 0; q < around; q++)
	{
		V p{};
		if(q < x.size()) p = x[q]; else for(int a = 0; a < V_DIM; a++) p[a] = blockPos(s, lo[a], hi[a], NL);
		std::vector<int> seen(x.size(), 0); std::size_t steps = 0;
		auto it = grid.cbegin(sut::vec(p)); const auto end = grid.cend();
		for(; !(it == end); ++it)
		{
			const auto j = *it;
			REQUIRE(c, j < x.size(), "iteration around " + show(p) + " gives a particle that was never stored: " + num(j));
			seen[j]++;
			REQUIRE(c, seen[j] == 1, "iteration around " + show(p) + " visits particle " + num(j) + " twice");
			REQUIRE(c, ++steps <= x.size(), "iteration does not end");
		}
		visitedTotal += steps;
		for(std::size_t j = 0; j < x.size(); j++)
		{
			bool near3 = true, sure = true;
			for(int a = 0; a < V_DIM; a++)
			{
				const double bp = (p[a] - lo[a]) / NL, bj = (x[j][a] - lo[a]) / NL;
				for(double b : {bp, bj}) if(b != 0 && std::abs(b - std::round(b)) < 1e-11) sure = false;
				if(std::abs(std::floor(bp) - std::floor(bj)) > 1) near3 = false;
			}
			const double r = ref::dist(p, x[j], V_DIM);
			if(sure) REQUIRE(c, (seen[j] == 1) == near3, std::string(near3 ? "a particle in a surrounding block is not visited" : "a particle outside the surrounding blocks is visited")
				+ ": around " + show(p) + ", stored " + show(x[j]) + " in " + show(lo) + ".." + show(hi) + " block length " + num(NL));
			if(r < NL * (1 - 1e-9)) { pairs++; REQUIRE(c, seen[j] == 1, "a particle closer than the block length is not visited: around " + show(p) + ", stored " + show(x[j])); }
		}
	}
	c.label("grid"); if(clumped) c.label("grid, clumped");
	c.nontrivial = x.size() >= 2 && pairs > x.size() && visitedTotal > 0;
}

static void listCase(pbt::Case& c)
{
	auto& s = c.s;
	Params q; q.l0 = s.pick({0.1, 1.0, 0.01});
	q.courant = s.pick({0.1, 0.2, 0.4, 0.05});
	q.ratio = s.real(1.05, V_DIM == 3 ? 2.3 : 3.6);
	q.maxDt = 1e-3;
	const double NL0 = q.ratio * q.l0 * (1 + 2 * q.courant);
	for(int a = 0; a < V_DIM; a++)
	{
		q.minX[a] = s.chance(60) ? s.sym(30) * q.l0 : 0.0;
		q.maxX[a] = q.minX[a] + NL0 * (s.chance(30) ? static_cast<double>(s.integer(1, V_DIM == 3 ? 4 : 7)) : s.real(0.1, V_DIM == 3 ? 4 : 7));
	}
	const int n = s.integer(1, V_DIM == 3 ? 60 : 45);
	State st; bool crowd = false;
	const auto position = [&](bool mayLeave)
	{
		V p{};
		for(int a = 0; a < V_DIM; a++) p[a] = blockPos(s, q.minX[a], q.maxX[a], q.ratio * q.l0 * (1 + 2 * q.courant));
		if(mayLeave && s.chance(10)) p[static_cast<std::size_t>(s.integer(0, V_DIM - 1))] = q.minX[0] - 1e3 * q.l0 * 4;
		return p;
	};
	for(int i = 0; i < n; i++)
	{
		Pt p; p.type = s.pick({FLUID, FLUID, WALL, DUMMY, DISABLED}); p.x = position(false); st.push_back(p);
	}
	if(s.chance(4))
	{
		SceneOpt o; o.ratioLo = 1.05; Scene sc = genCrowd(s, o); q = sc.q; st = sc.s; crowd = true;
		if(st.empty()) c.discard("nobody");
	}
	const double NL = q.ratio * q.l0 * (1 + 2 * q.courant);
	sut::Sim sim(q, [](std::size_t, double, double) { return V{}; });
	sim.add(st);
	const int rounds = s.integer(1, 3); std::size_t pairs = 0, disabled = 0;
	for(int k = 0; k < rounds; k++)
	{
		st = sim.state();
		if(k > 0)
		{
			for(auto& p : st) if(s.chance(40)) p.x = position(true);
			if(s.chance(20)) { Pt p; p.x = position(false); State one{p}; sim.add(one); st.push_back(p); }
			sim.set(st);
		}
		try { sim.search(); } catch(const std::exception&) { if(k == 0) c.discard("overfull block"); break; }
		const State now = sim.state();
		REQUIRE(c, now.size() == st.size(), "the search changed the number of particles");
		for(std::size_t i = 0; i < now.size(); i++)
		{
			if(now[i].type == DISABLED) { disabled++; continue; }
			const auto list = sim.neighbors(i);
			std::vector<int> seen(now.size(), 0);
			for(auto j : list)
			{
				REQUIRE(c, j < now.size(), "neighbour list" + at(i) + " holds a number that is no particle: " + num(j));
				REQUIRE(c, j != i, "neighbour list" + at(i) + " holds the particle itself");
				REQUIRE(c, now[j].type != DISABLED, "neighbour list" + at(i) + " holds disabled particle " + num(j));
				REQUIRE(c, ++seen[j] == 1, "neighbour list" + at(i) + " holds particle " + num(j) + " twice");
			}
			for(std::size_t j = 0; j < now.size(); j++)
			{
				if(j == i || now[j].type == DISABLED) continue;
				const double r = ref::dist(now[i].x, now[j].x, V_DIM);
				if(std::abs(r - NL) < 1e-9 * NL) continue;
				if(r < NL) pairs++;
				REQUIRE(c, (r < NL) == (seen[j] == 1), std::string(r < NL ? "missing neighbour: " : "wrong neighbour: ") + "particles " + num(i) + " " + show(now[i].x) + " and " + num(j) + " "
					+ show(now[j].x) + " at distance " + num(r / NL) + " neighbour distances, round " + num(k) + ", domain " + show(q.minX) + ".." + show(q.maxX));
			}
		}
	}
	c.label("lists"); if(crowd) c.label("crowd"); if(rounds > 1) c.label("lists, several searches"); if(disabled) c.label("lists with disabled");
	c.note("parameters", show(q)); c.note("particles", show(st)); c.note("rounds", rounds);
	c.nontrivial = pairs >= 2;
}

static void prop(pbt::Case& c)
{
	if(c.s.chance(55)) listCase(c); else gridCase(c);
}
PBT_MAIN("C01", prop)
