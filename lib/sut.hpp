// Access to the code under test. One translation unit = one method variant; the driver chooses the variant's macros
// and also passes V_* describing it, so that the harness never asks the headers which options are on.
#ifndef SUT_HPP
#define SUT_HPP

#ifndef V_DIM
#define V_DIM 2
#endif
#ifndef V_HS
#define V_HS 1
#endif
#ifndef V_HL
#define V_HL 1
#endif
#ifndef V_ECS
#define V_ECS 1
#endif
#ifndef V_GC
#define V_GC 0
#endif
#ifndef V_DS
#define V_DS 1
#endif
#ifndef V_SPP
#define V_SPP 1
#endif
#ifndef V_MID
#define V_MID 1
#endif
#ifndef V_EXPLICIT
#define V_EXPLICIT 0
#endif
#ifndef V_CENTRAL
#define V_CENTRAL 0
#endif
#ifndef V_VIENNACL
#define V_VIENNACL 1
#endif

#include <array>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <mutex>
#include <cmath>
#include <cstddef>

#define TEST_IMPLICITFORCES
#include "Computer.hpp"

using V = std::array<double, 3>; // first V_DIM entries used; vertical axis is V_DIM-1
enum { FLUID = 0, WALL = 1, DUMMY = 2, DISABLED = 3 };
struct Pt { int type = FLUID; V x{}, u{}; double p = 0, n = 0; };
using State = std::vector<Pt>;

struct Params
{
	double maxDt = 1e-2, courant = 0.1, g = 9.8, rho = 1000, nu = 1e-6, surfaceRatio = 0.95, ratio = 2.1, c = 10, l0 = 0.1;
	V minX{}, maxX{};
	double eps = 1e-12;
};

// position of walls and dummies: base + vel * t + amp * sin(w t)
struct Law
{
	std::vector<V> base, vel;
	V operator()(std::size_t i, double t, double) const
	{
		V r{};
		for(int a = 0; a < V_DIM; a++) r[a] = base[i][a] + (vel.empty() ? 0.0 : vel[i][a] * t);
		return r;
	}
	static Law From(const State& s) { Law l; for(auto& p : s) { l.base.push_back(p.x); l.vel.push_back(V{}); } return l; }
};

namespace sut
{
	static OpenMps::Vector vec(const V& v) { OpenMps::Vector r; for(std::size_t a = 0; a < V_DIM; a++) r[a] = v[a]; return r; }
	static V arr(const OpenMps::Vector& v) { V r{}; for(std::size_t a = 0; a < V_DIM; a++) r[a] = v[a]; return r; }
	static OpenMps::Particle particle(const Pt& q)
	{
		OpenMps::Particle p(static_cast<OpenMps::Particle::Type>(q.type));
		p.X() = vec(q.x); p.U() = vec(q.u); p.P() = q.p; p.N() = q.n;
		return p;
	}
	static Pt point(const OpenMps::Particle& p)
	{
		Pt q; q.type = static_cast<int>(p.TYPE()); q.x = arr(p.X()); q.u = arr(p.U()); q.p = p.P(); q.n = p.N();
		return q;
	}
	static OpenMps::Environment environment(const Params& q)
	{
		return OpenMps::Environment(q.maxDt, q.courant, q.g, q.rho, q.nu,
#if !V_SPP
			q.surfaceRatio,
#endif
			q.ratio,
#if V_EXPLICIT
			q.c,
#endif
			q.l0,
#if V_DIM == 3
			q.minX[0], q.minX[1], q.minX[2], q.maxX[0], q.maxX[1], q.maxX[2]
#else
			q.minX[0], q.minX[1], q.maxX[0], q.maxX[1]
#endif
		);
	}

	struct Call { bool pre; std::size_t i; double t, dt; };
	struct Hooks
	{
		std::function<V(std::size_t, double, double)> law;
		std::vector<Call> calls; bool record = false; std::mutex lock; // the law is called from parallel loops
	};
	struct Wall
	{
		Hooks* h;
		OpenMps::Vector operator()(std::size_t i, double t, double dt) const
		{
			if(h->record) { std::lock_guard<std::mutex> g(h->lock); h->calls.push_back(Call{false, i, t, dt}); }
			return vec(h->law(i, t, dt));
		}
	};
	struct WallPre
	{
		Hooks* h;
		void operator()(double t, double dt) const { if(h->record) h->calls.push_back(Call{true, 0, t, dt}); }
	};
}

namespace { namespace OpenMps
{
	// named as one of the friends the classes declare for the unit tests
	class ImplicitForcesTest
	{
	public:
		template<typename C> static void Search(C& c) { c.SearchNeighbor(); }
		template<typename C> static void Densities(C& c) { c.ComputeNeighborDensities(); }
		template<typename C> static void Gradient(C& c) { c.ModifyByPressureGradient(); }
		template<typename C> static auto& Particles(C& c) { return c.particles; }
		template<typename C> static auto& Env(C& c) { return c.environment; }
		template<typename C> static std::vector<std::size_t> Neighbors(C& c, std::size_t i)
		{
			std::vector<std::size_t> r;
			const std::size_t n = c.NeighborCount(i);
			for(std::size_t k = 0; k < n; k++) r.push_back(c.Neighbor(i, k));
			return r;
		}
#if !V_EXPLICIT || V_ECS
		template<typename C> static double Speed(C& c, std::size_t i) { return c.NeighborDensityVariationSpeed(i); }
#endif
#if !V_EXPLICIT
		template<typename C> static void SetPpe(C& c) { c.SetPressurePoissonEquation(); }
		template<typename C> static void Solve(C& c) { c.SolvePressurePoissonEquation(); }
		template<typename C> static auto& Ppe(C& c) { return c.ppe; }
#endif
	};
}}

namespace sut
{
	using Access = OpenMps::ImplicitForcesTest;

	template<typename W, typename WP> static auto create(const Params& q, const OpenMps::Environment& e, const W& w, const WP& wp)
	{
		return OpenMps::CreateComputer(
#if !V_EXPLICIT
			q.eps,
#endif
			e, w, wp);
	}

	class Sim
	{
	public:
		Params q;
		Hooks hooks;
		Wall wall{&hooks}; WallPre pre{&hooks};
		OpenMps::Environment env;
		using Comp = decltype(create(std::declval<Params>(), std::declval<OpenMps::Environment>(), std::declval<Wall>(), std::declval<WallPre>()));
		std::unique_ptr<Comp> own;
		Comp& c() { return *own; }
		const Comp& c() const { return *own; }
		// the space is moved to another place and the old one is given back
		void relocate() { own = std::make_unique<Comp>(std::move(*own)); }
		Sim(const Params& p, std::function<V(std::size_t, double, double)> law)
			: q(p), env(environment(p)), own(new Comp(create(q, env, wall, pre)))
		{ hooks.law = std::move(law); }
		Sim(const Sim&) = delete;

		void add(const State& s)
		{
			std::vector<OpenMps::Particle> v;
			for(auto& p : s) v.push_back(particle(p));
			c().AddParticles(std::move(v));
		}
		void step() { c().ForwardTime(); }
		void step(double dt) { c().ForwardTime(dt); }
		State state() const { State s; for(auto& p : c().Particles()) s.push_back(point(p)); return s; }
		double t() const { return c().GetEnvironment().T(); }
		double dt() const { return c().GetEnvironment().Dt(); }
		// direct manipulation for stage-level checks
		void set(const State& s)
		{
			auto& v = Access::Particles(c());
			for(std::size_t i = 0; i < s.size(); i++) v[i] = particle(s[i]);
		}
		void setDt(double dt) { Access::Env(c()).Dt() = dt; }
		void search() { Access::Search(c()); }
		void densities() { Access::Densities(c()); }
		void gradient() { Access::Gradient(c()); }
		std::vector<std::size_t> neighbors(std::size_t i) { return Access::Neighbors(c(), i); }
#if !V_EXPLICIT
		void setPpe() { Access::SetPpe(c()); }
		std::size_t ppeSize() { return Access::Ppe(c()).b.size(); }
		double b(std::size_t i) { return Access::Ppe(c()).b(i); }
		double x(std::size_t i) { return Access::Ppe(c()).x(i); }
		// dense copy of the assembled matrix
		std::vector<double> matrix()
		{
			auto& p = Access::Ppe(c());
			const std::size_t n = p.b.size();
			std::vector<double> d(n * n, 0.0);
#if V_VIENNACL
			std::vector<std::map<unsigned int, double>> m(n);
			if(n > 0) viennacl::copy(p.A, m);
			for(std::size_t i = 0; i < n; i++) for(auto& e : m[i]) d[i * n + e.first] = e.second;
#else
			for(auto i1 = p.A.begin1(); i1 != p.A.end1(); ++i1)
				for(auto i2 = i1.begin(); i2 != i1.end(); ++i2) d[i2.index1() * n + i2.index2()] = *i2;
#endif
			return d;
		}
#endif
	};
}
#endif
