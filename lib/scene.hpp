// Scene generators. All sizes are relative to the spacing l0 and the step dt, so that a step moves particles by
// fractions of courant*l0, as a stepped simulation does.
#ifndef SCENE_HPP
#define SCENE_HPP
#include <array>
#include <map>
#include "pbt.hpp"
#include "sut.hpp"
#include "ref.hpp"

struct Scene
{
	Params q; double dt = 0; State s; Law law; std::string kind;
	std::function<V(std::size_t, double, double)> fn() const { const Law l = law; return [l](std::size_t i, double t, double dt) { return l(i, t, dt); }; }
};

struct SceneOpt
{
	int maxN = 40;
	bool walls = true, dummies = true, disabled = true, moveWalls = true;
	bool pressure = true;      // stored pressures non-zero
	double minDist = 0.45;     // closest pair, in l0
	double spacingLo = 0.9, spacingHi = 1.25;
	bool gravityZero = false;  // force g = 0
	double speed = 0.35;       // velocities up to speed * courant * l0 / dt
	int kinds = 4;             // how many arrangement kinds to use
	int exact = 6;             // percentage of scenes on an exact lattice moving as one, so that exact alignments and symmetries persist
	int leaving = 6;           // percentage of scenes whose outermost particles on one side are about to leave the domain
	double minL0 = 1e-3;
	double ratioLo = 1.55, ratioHi = (V_DIM == 3 ? 2.3 : 3.3);
};

static Params genParams(pbt::Source& s, const SceneOpt& o, double& dt)
{
	Params q;
	q.l0 = s.pick({0.1, 1.0, 0.01, 0.001, 0.025, 0.125});
	if(q.l0 < o.minL0) q.l0 = 0.1;
	q.courant = s.pick({0.1, 0.2, 0.4, 0.05, 0.25});
	q.ratio = s.real(o.ratioLo, o.ratioHi);
	dt = s.pick({1e-3, 1e-2, 1e-4, 2.5e-3});
	q.maxDt = dt * s.pick({1.0, 10.0, 2.0});
	const double acc = q.courant * q.l0 / (dt * dt);
	q.g = o.gravityZero ? 0 : s.chance(75) ? acc * s.real(0.01, 0.3) : 0.0;
	if(s.chance(12)) { const double f = s.logreal(20, 1e6); q.maxDt = dt * f; q.g /= f * f; } // steps far below the maximum
	q.rho = s.pick({1000.0, 1.0, 998.2, 13.6, 13600.0, 0.001});
	q.nu = s.chance(80) ? s.real(0.001, 0.05) * q.l0 * q.l0 / dt : 0.0;
	q.surfaceRatio = s.pick({0.95, 0.9, 0.97, 0.8});
	q.c = s.real(0.05, 0.6) * q.l0 / dt;
	q.eps = s.pick({1e-10, 1e-8, 1e-6, 1e-9});
	return q;
}

// put p into st unless it would come too close to another particle
static bool place(State& st, const Pt& p, double minDist)
{
	for(auto& o : st) if(ref::dist(o.x, p.x, V_DIM) < minDist) return false;
	st.push_back(p);
	return true;
}

static void genDomain(pbt::Source& s, Scene& sc, double extra)
{
	// a box around the particles, with independent margins on each side; some particles may be close to the border
	V lo{}, hi{};
	for(int a = 0; a < V_DIM; a++) { lo[a] = 1e300; hi[a] = -1e300; }
	for(auto& p : sc.s) for(int a = 0; a < V_DIM; a++) { lo[a] = std::min(lo[a], p.x[a]); hi[a] = std::max(hi[a], p.x[a]); }
	if(sc.s.empty()) for(int a = 0; a < V_DIM; a++) { lo[a] = 0; hi[a] = sc.q.l0; }
	for(int a = 0; a < V_DIM; a++)
	{
		sc.q.minX[a] = lo[a] - sc.q.l0 * (extra + s.real(0, 3.5));
		sc.q.maxX[a] = hi[a] + sc.q.l0 * (extra + s.real(0, 3.5));
	}
}

// the outermost particles on the lower side of one axis (where the grid ends with the domain) leave within a step or two
static void genLeaving(pbt::Source& s, Scene& sc, double vmax)
{
	if(sc.s.empty()) return;
	const std::size_t a = s.upto(V_DIM - 1);
	double lo = 1e300; for(auto& p : sc.s) if(p.type != DISABLED) lo = std::min(lo, p.x[a]);
	if(lo == 1e300) return;
	const double band = s.pick({0.0, 0.3, 1.0}) * sc.q.l0;
	sc.q.minX[a] = lo - s.real(0.05, 0.9) * vmax * sc.dt;
	for(std::size_t i = 0; i < sc.s.size(); i++) if(sc.s[i].type != DISABLED && sc.s[i].x[a] <= lo + band)
	{
		sc.s[i].u[a] = -s.real(0.5, 1.0) * vmax;
		if(sc.s[i].type != FLUID) sc.law.vel[i][a] = sc.s[i].u[a];
	}
	sc.kind += ", leaving";
}

static Scene genScene(pbt::Source& s, const SceneOpt& o)
{
	Scene sc; sc.q = genParams(s, o, sc.dt);
	const double l = sc.q.l0;
	const double vmax = o.speed * sc.q.courant * l / sc.dt * (s.chance(8) ? s.logreal(1e-8, 0.1) : 1.0); // now and then as good as at rest
	const int kind = s.integer(0, o.kinds - 1);
	const bool tank = o.walls && s.chance(40);
	V off{}; if(s.chance(50)) for(int a = 0; a < V_DIM; a++) off[a] = s.sym(20) * l;
	const auto type = [&]() -> int
	{
		const auto k = s.upto(99);
		if(k < 70) return FLUID;
		if(k < 82) return o.walls ? WALL : FLUID;
		if(k < 92) return o.dummies ? DUMMY : FLUID;
		if(k < 96) return o.disabled ? DISABLED : FLUID;
		return FLUID;
	};
	const auto finish = [&](Pt& p)
	{
		for(int a = 0; a < V_DIM; a++) p.u[a] = s.sym(vmax / std::sqrt(double(V_DIM)));
		p.p = o.pressure ? s.real(0, 1) * sc.q.rho * l * l / (sc.dt * sc.dt) * 0.01 : 0.0;
		p.n = s.real(0, 10);
	};
	if(o.exact && s.chance(o.exact))
	{
		const double sp = s.pick({0.9375, 0.96875, 0.90625, 1.0625, 1.03125, 1.125}) * l;
		if(s.chance(75)) { sc.q.l0 = s.pick({0.03125, 0.0078125, 0.015625, 0.001953125}); for(auto* v : {&sc.q.nu}) *v *= sc.q.l0 * sc.q.l0 / (l * l); sc.q.g *= sc.q.l0 / l; sc.q.c *= sc.q.l0 / l; }
		const double f = sc.q.l0 / l, d = sp * f;
		const int top = V_DIM == 3 ? 3 : 6;
		const int w = s.integer(1, top), h = s.integer(1, top), dd = V_DIM == 3 ? s.integer(1, 3) : 1;
		const int hole = s.chance(30) ? s.integer(5, 30) : 0, mode = s.integer(0, 3), mix = s.integer(0, 2);
		double rate[3]; for(auto& r : rate) r = s.sym(vmax * f / (top * d));
		V u0{}; for(int a = 0; a < V_DIM; a++) u0[a] = s.sym(vmax * f / 2);
		if(mode >= 2) { if(s.chance(60)) sc.q.nu = 0; if(mode == 2) for(auto& r : rate) r = -std::abs(r); }
		sc.kind = "exact lattice";
		for(int i = 0; i < w; i++) for(int j = 0; j < h; j++) for(int k = 0; k < dd; k++)
		{
			if(static_cast<int>(sc.s.size()) >= o.maxN) break;
			if(hole && s.chance(hole)) continue;
			Pt p; const int idx[3] = {i, V_DIM == 3 ? k : j, j}, cnt[3] = {w, V_DIM == 3 ? dd : h, h};
			for(int a = 0; a < V_DIM; a++) p.x[a] = (idx[a] - 0.5 * (cnt[a] - 1)) * d;
			p.type = mix == 0 ? FLUID : mix == 1 ? (j == 0 && o.walls ? WALL : FLUID) : type();
			finish(p);
			for(int a = 0; a < V_DIM; a++) p.u[a] = mode == 0 ? 0 : mode == 1 ? u0[a] : rate[a] * p.x[a];
			place(sc.s, p, o.minDist * sc.q.l0);
		}
		sc.law = Law::From(sc.s);
		if(o.moveWalls) for(std::size_t i = 0; i < sc.s.size(); i++) if(mode) sc.law.vel[i] = sc.s[i].u;
		genDomain(s, sc, 0.6);
		if(o.leaving && s.chance(o.leaving)) genLeaving(s, sc, vmax * f);
		return sc;
	}
	if(kind == 0 || kind == 1)
	{
		// lattice with jitter (kind 1: strong jitter and holes)
		const double sp = s.real(o.spacingLo, o.spacingHi) * l;
		const double jit = (kind == 0 ? s.real(0.001, 0.1) : s.real(0.1, 0.3)) * l;
		const int hole = kind == 0 ? 0 : s.integer(0, 40);
		const int top = V_DIM == 3 ? 4 : 7;
		const int w = s.integer(1, top), h = s.integer(1, top), dd = V_DIM == 3 ? s.integer(1, 4) : 1;
		sc.kind = std::string(kind == 0 ? "lattice" : "loose") + (tank ? "-tank" : "");
		for(int i = 0; i < w; i++) for(int j = 0; j < h; j++) for(int k = 0; k < dd; k++)
		{
			if(static_cast<int>(sc.s.size()) >= o.maxN) break;
			if(hole && s.chance(hole)) continue;
			Pt p; const int idx[3] = {i, V_DIM == 3 ? k : j, j};
			for(int a = 0; a < V_DIM; a++) p.x[a] = off[a] + idx[a] * sp + s.sym(jit);
			if(tank)
			{
				const bool side = (i == 0 || i == w - 1), deep = (j == 0);
				p.type = deep && h > 2 && o.dummies ? DUMMY : (side || deep || j == 1) ? WALL : FLUID;
			}
			else p.type = type();
			finish(p); place(sc.s, p, o.minDist * l);
		}
	}
	else if(kind == 2)
	{
		// scattered points
		const int n = s.integer(1, o.maxN); const double side = std::pow(double(n), 1.0 / V_DIM) * s.real(0.9, 2.5) * l;
		sc.kind = "scatter";
		for(int i = 0; i < n; i++)
		{
			Pt p; for(int a = 0; a < V_DIM; a++) p.x[a] = off[a] + s.real(0, side);
			p.type = type(); finish(p); place(sc.s, p, o.minDist * l);
		}
	}
	else
	{
		// a few clusters, far apart or nearly touching
		const int m = s.integer(1, 4); sc.kind = "clusters";
		for(int c = 0; c < m; c++)
		{
			V ctr{}; for(int a = 0; a < V_DIM; a++) ctr[a] = off[a] + s.sym(6) * l;
			const int n = s.integer(1, std::max(1, o.maxN / 4));
			for(int i = 0; i < n; i++)
			{
				Pt p; for(int a = 0; a < V_DIM; a++) p.x[a] = ctr[a] + s.sym(0.6 + 0.35 * std::pow(double(n), 1.0 / V_DIM)) * l;
				p.type = type(); finish(p); place(sc.s, p, o.minDist * l);
			}
		}
	}
	sc.law = Law::From(sc.s);
	if(o.moveWalls && s.chance(50))
		for(auto& v : sc.law.vel) for(int a = 0; a < V_DIM; a++) v[a] = s.sym(vmax / std::sqrt(double(V_DIM)));
	genDomain(s, sc, 0.6);
	if(o.leaving && s.chance(o.leaving)) genLeaving(s, sc, vmax);
	return sc;
}

// far more particles around one point than a lattice has, as many as the blocks take
static Scene genCrowd(pbt::Source& s, const SceneOpt& o)
{
	Scene sc; sc.q = genParams(s, o, sc.dt); sc.kind = "crowd"; sc.q.nu = 0;
	const double l = sc.q.l0, NL = sc.q.ratio * l * (1 + 2 * sc.q.courant), vmax = 0.2 * o.speed * sc.q.courant * l / sc.dt;
	V ctr{}; if(s.chance(50)) for(int a = 0; a < V_DIM; a++) ctr[a] = s.sym(20) * l;
	for(int a = 0; a < V_DIM; a++) { sc.q.minX[a] = ctr[a] - NL * s.real(1, 2.5); sc.q.maxX[a] = ctr[a] + NL * s.real(1, 2.5); }
	const int n = s.integer(60, 300), fluid = s.integer(0, 100), cap = static_cast<int>(std::pow(std::ceil(NL / l * (1 - 1e-9)) + 1, V_DIM) + 0.5);
	const double R = sc.q.ratio * l * s.real(0.4, 1.2);
	std::map<std::array<int, 3>, int> block;
	for(int i = 0; i < n; i++)
	{
		Pt p; double m = 0; for(int a = 0; a < V_DIM; a++) { p.x[a] = s.sym(1); m += p.x[a] * p.x[a]; }
		if(m > 1) continue;
		std::array<int, 3> b{}; for(int a = 0; a < V_DIM; a++) { p.x[a] = ctr[a] + R * p.x[a]; b[a] = static_cast<int>(std::floor((p.x[a] - sc.q.minX[a]) / NL)); }
		if(block[b] >= cap - 1) continue;
		p.type = static_cast<int>(s.upto(99)) < fluid ? FLUID : s.pick({WALL, WALL, DUMMY});
		for(int a = 0; a < V_DIM; a++) p.u[a] = s.sym(vmax / std::sqrt(double(V_DIM)));
		p.p = o.pressure ? s.real(0, 1) * sc.q.rho * l * l / (sc.dt * sc.dt) * 0.01 : 0.0; p.n = s.real(0, 10);
		if(place(sc.s, p, 0.04 * l)) block[b]++;
	}
	sc.law = Law::From(sc.s);
	return sc;
}

static std::string show(const V& v)
{
	std::ostringstream o; o << std::setprecision(17) << "("; for(int a = 0; a < V_DIM; a++) o << (a ? ", " : "") << v[a]; o << ")"; return o.str();
}
static std::string show(const State& s, std::size_t max = 12)
{
	std::ostringstream o; o << std::setprecision(10);
	static const char* const T[] = {"fluid", "wall", "dummy", "disabled"};
	for(std::size_t i = 0; i < s.size() && i < max; i++)
	{
		o << (i ? "; " : "") << (s[i].type >= 0 && s[i].type < 4 ? T[s[i].type] : "?") << " x=(";
		for(int a = 0; a < V_DIM; a++) o << (a ? "," : "") << s[i].x[a];
		o << ") u=(";
		for(int a = 0; a < V_DIM; a++) o << (a ? "," : "") << s[i].u[a];
		o << ") p=" << s[i].p;
	}
	if(s.size() > max) o << "; ... " << s.size() << " particles";
	return o.str();
}
static std::string show(const Params& q)
{
	std::ostringstream o; o << std::setprecision(10) << "l0=" << q.l0 << " courant=" << q.courant << " r_e/l0=" << q.ratio << " g=" << q.g
		<< " rho=" << q.rho << " nu=" << q.nu << " maxDt=" << q.maxDt << " eps=" << q.eps << " domain=" << show(q.minX) << ".." << show(q.maxX);
	return o.str();
}
static void describe(pbt::Case& c, const Scene& sc)
{
	c.note("parameters", show(sc.q)); c.note("dt", sc.dt); c.note("arrangement", sc.kind); c.note("particles", show(sc.s));
	c.label("arrangement=" + sc.kind);
	int cnt[4] = {0, 0, 0, 0}; for(auto& p : sc.s) cnt[p.type]++;
	if(cnt[WALL]) c.label("has walls"); if(cnt[DUMMY]) c.label("has dummies"); if(cnt[DISABLED]) c.label("has disabled");
	c.label(sc.s.size() < 2 ? "n<2" : sc.s.size() < 10 ? "2<=n<10" : sc.s.size() < 25 ? "10<=n<25" : "n>=25");
}

// run a step; "" or the message of the exception the library raised
template<typename SIM> static std::string tryStep(SIM& sim, double dt)
{
	try { if(dt > 0) sim.step(dt); else sim.step(); return ""; }
	catch(const std::runtime_error& e) { return std::string(e.what()).empty() ? "error" : e.what(); }
}

static bool near(double a, double b, double tol) { return std::abs(a - b) <= tol; }
static bool nearV(const V& a, const V& b, double tol)
{
	for(int k = 0; k < V_DIM; k++) if(!near(a[k], b[k], tol)) return false;
	return true;
}
static std::string at(std::size_t i) { return " of particle " + std::to_string(i); }
template<typename T> static std::string num(const T& v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
#endif
