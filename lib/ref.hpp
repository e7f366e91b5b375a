// Independent reference model of one step, written from the documented method (README, comments, cited papers):
// brute force over all pairs, no grid, no neighbour list, no sparse matrix, no conjugate gradients.
#ifndef REF_HPP
#define REF_HPP
#include "sut.hpp"
#include <string>
#include <limits>

namespace ref
{
	struct Method { int D; bool HS, HL, ECS, GC, DS, SPP, MID, EXPL, CENTRAL; };
	static Method here()
	{
		return Method{V_DIM, V_HS != 0, V_HL != 0, V_ECS != 0, V_GC != 0, V_DS != 0, V_SPP != 0, V_MID != 0, V_EXPLICIT != 0, V_CENTRAL != 0};
	}
	static double dot(const V& a, const V& b, int D) { double s = 0; for(int k = 0; k < D; k++) s += a[k] * b[k]; return s; }
	static double dist(const V& a, const V& b, int D)
	{
		double s = 0; for(int k = 0; k < D; k++) s += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(s);
	}
	static V sub(const V& a, const V& b) { return V{a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }

	// derived constants
	struct Const { double re, NL, maxDx, n0, lambda, maxDt; };
	static double weight(double r, double re) { return (r > 0 && r < re) ? re / r - 1 : 0; }
	static Const constants(const Params& q, const Method& m)
	{
		Const k; k.re = q.ratio * q.l0; k.maxDx = q.courant * q.l0; k.NL = k.re * (1 + 2 * q.courant);
		k.n0 = 0; double l = 0;
		const int R = static_cast<int>(std::ceil(q.ratio)) + 1;
		for(int a = -R; a <= R; a++) for(int b = -R; b <= R; b++) for(int c = (m.D == 3 ? -R : 0); c <= (m.D == 3 ? R : 0); c++)
		{
			if(!a && !b && !c) continue;
			const double d2 = a * a + b * b + c * c, d = std::sqrt(d2);
			if(d < q.ratio) { const double w = q.ratio / d - 1; k.n0 += w; l += d2 * w; }
		}
		k.lambda = k.n0 > 0 ? l * q.l0 * q.l0 / k.n0 : 0;
		k.maxDt = std::min(q.maxDt, m.EXPL ? k.maxDx / q.c : std::sqrt(2 * k.maxDx / q.g));
		return k;
	}

	static bool solves(std::vector<double> a, std::vector<double> b, std::size_t n, std::vector<double>& x, std::vector<double>* inverse)
	{
		// Gauss-Jordan with partial pivoting, also giving the inverse
		std::vector<double> inv(n * n, 0.0); for(std::size_t i = 0; i < n; i++) inv[i * n + i] = 1;
		double big = 0; for(double v : a) big = std::max(big, std::abs(v));
		for(std::size_t c = 0; c < n; c++)
		{
			std::size_t p = c; for(std::size_t r = c + 1; r < n; r++) if(std::abs(a[r * n + c]) > std::abs(a[p * n + c])) p = r;
			if(!(std::abs(a[p * n + c]) > 1e-14 * big)) return false;
			if(p != c) for(std::size_t k = 0; k < n; k++) { std::swap(a[p * n + k], a[c * n + k]); std::swap(inv[p * n + k], inv[c * n + k]); }
			if(p != c) std::swap(b[p], b[c]);
			const double d = 1 / a[c * n + c];
			for(std::size_t k = 0; k < n; k++) { a[c * n + k] *= d; inv[c * n + k] *= d; }
			b[c] *= d;
			for(std::size_t r = 0; r < n; r++) if(r != c && a[r * n + c] != 0)
			{
				const double f = a[r * n + c];
				for(std::size_t k = 0; k < n; k++) { a[r * n + k] -= f * a[c * n + k]; inv[r * n + k] -= f * inv[c * n + k]; }
				b[r] -= f * b[c];
			}
		}
		x = b; if(inverse) *inverse = inv;
		return true;
	}

	// a field of values with the sums of absolute contributions, for tolerances
	struct Virtual { bool exists = false; double r = 0; V off{}; };

	class Step
	{
	public:
		Method m; Params q; Const k; double t0, dt, t1;
		State in;                 // state at the start of the step, after disabling
		std::vector<V> x0;        // start positions
		std::vector<V> x1, u1;    // after the explicit stage and wall motion
		std::vector<double> nw0, n0v, nw1, n1v; // densities (unfilled, reported) at start and after the explicit stage
		std::vector<double> speed0, speed0s, ecs, ecss, speed1, speed1s;
		std::vector<V> du1; std::vector<double> du1s; // explicit acceleration*dt and its absolute scale
		std::vector<double> A, b, bs; std::vector<char> identity; // pressure equation
		std::vector<double> P;    // exact solution, clipped
		std::vector<double> raw;  // exact solution
		double normInv = 0, cond = 0; // infinity norm of the inverse, condition number
		bool solvable = true;
		std::string ambiguous;    // non-empty: a threshold is too close to call
		bool skin = false;        // a pair came into range that the search of this step did not list
		static constexpr double MARGIN = 1e-8;
		double condLimit = 1e5;   // gradient-correction matrices beyond this condition are not compared

		bool enabled(std::size_t i) const { return in[i].type != DISABLED; }
		bool active(std::size_t i) const { return in[i].type == FLUID || in[i].type == WALL; }

		// pairs inside the influence radius at positions x
		template<typename F> void range(const std::vector<V>& x, std::size_t i, F f)
		{
			for(std::size_t j = 0; j < x.size(); j++)
			{
				if(j == i || !enabled(j)) continue;
				const double r = dist(x[i], x[j], m.D);
				if(std::abs(r - k.re) < MARGIN * k.re) ambiguous = "pair at the influence radius";
				if(r < k.re)
				{
					if(!(dist(x0[i], x0[j], m.D) < k.NL * (1 - 1e-12))) skin = true;
					if(r < 1e-9 * q.l0) ambiguous = "coincident particles";
					f(j, r, sub(x[j], x[i]));
				}
			}
		}
		void density(const std::vector<V>& x, std::vector<double>& nw, std::vector<double>& n)
		{
			nw.assign(x.size(), k.n0); n.resize(x.size());
			for(std::size_t i = 0; i < x.size(); i++)
			{
				n[i] = in[i].n;
				if(!active(i)) continue;
				double s = 0; range(x, i, [&](std::size_t, double r, const V&) { s += weight(r, k.re); });
				nw[i] = s; n[i] = m.SPP ? std::max(s, k.n0) : s;
				if(m.SPP && std::abs(s - k.n0) < MARGIN * k.n0) ambiguous = "density at the reference density";
				if(!m.SPP && std::abs(s / k.n0 - q.surfaceRatio) < MARGIN) ambiguous = "density at the surface threshold";
			}
		}
		// the free-surface virtual particle of particle i
		Virtual virt(const std::vector<V>& x, const std::vector<double>& nw, std::size_t i)
		{
			Virtual v;
			if(!m.SPP || !(nw[i] < k.n0)) return v;
			V g{}; double s = 0, sw = 0; int cnt = 0;
			range(x, i, [&](std::size_t, double r, const V& d)
			{
				const double w = weight(r, k.re); sw += w / k.n0;
				for(int a = 0; a < m.D; a++) { g[a] += w * d[a] / k.n0; }
				s += w * r / k.n0; cnt++;
			});
			const double rg = std::sqrt(dot(g, g, m.D));
			if(cnt == 0) return v;
			// exactly balanced, and rounding (of the sums and of the positions) cannot matter: no direction, no virtual particle
			const double err = 1.2e-16 * (cnt * s + 2 * std::sqrt(dot(x[i], x[i], m.D)) * sw);
			if(rg + 2 * err < 2.2e-16) return v;
			if(rg < 1e-7 * s || rg < 1e-13) { ambiguous = "balanced neighbourhood without a surface direction"; return v; }
			v.exists = true; v.r = k.re / (k.n0 - nw[i] + 1);
			for(int a = 0; a < m.D; a++) v.off[a] = -v.r * g[a] / rg;
			return v;
		}
		double laplace(double r) const // pair coefficient
		{
			return m.HL ? (5 - m.D) * k.re / k.n0 / (r * r * r) : 2 * m.D / (k.lambda * k.n0) * weight(r, k.re);
		}
		void speed(const std::vector<V>& x, const std::vector<V>& u, const std::vector<double>& nw, const std::vector<double>& n,
			std::vector<double>& sp, std::vector<double>& sps)
		{
			sp.assign(x.size(), 0); sps.assign(x.size(), 0);
			for(std::size_t i = 0; i < x.size(); i++)
			{
				if(!active(i)) continue;
				if(!m.HS) { sp[i] = (n[i] - k.n0) / dt; sps[i] = (n[i] + k.n0) / dt; continue; }
				if(m.SPP && nw[i] < k.n0) continue;
				range(x, i, [&](std::size_t j, double r, const V& d)
				{
					const V w = sub(u[j], u[i]);
					sp[i] -= k.re * dot(d, w, m.D) / (r * r * r);
					for(int a = 0; a < m.D; a++) sps[i] += k.re * std::abs(d[a]) * (std::abs(u[j][a]) + std::abs(u[i][a])) / (r * r * r);
				});
			}
		}

		Step(const State& s, const Params& p, double t, double dtt, const std::function<V(std::size_t, double, double)>& law, const Method& mm = here())
			: m(mm), q(p), k(constants(p, mm)), t0(t), dt(dtt), t1(t + dtt), in(s)
		{
			const std::size_t n = s.size();
			for(auto& a : in)
			{
				x0.push_back(a.x);
				if(a.type == DISABLED) continue;
				for(int c = 0; c < m.D; c++)
				{
					const double mar = 1e-9 * k.NL;
					if(a.x[c] < q.minX[c]) { if(a.x[c] > q.minX[c] - mar) ambiguous = "particle on the domain border"; a.type = DISABLED; }
					else if(a.x[c] > q.maxX[c]) ambiguous = "particle beyond the domain maximum";
				}
			}
			std::vector<V> u0; for(auto& a : in) u0.push_back(a.u);
			density(x0, nw0, n0v);
			ecs.assign(n, 0); ecss.assign(n, 0);
			if(m.ECS)
			{
				speed(x0, u0, nw0, n0v, speed0, speed0s);
				for(std::size_t i = 0; i < n; i++) if(active(i))
				{
					const double e = (n0v[i] - k.n0) / k.n0;
					ecs[i] = std::abs(e) * speed0[i] + std::abs(speed0[i]) * e;
					ecss[i] = 2 * (n0v[i] / k.n0 + 1) * speed0s[i];
				}
			}
			// explicit stage
			x1 = x0; u1 = u0; du1.assign(n, V{}); du1s.assign(n, 0);
			for(std::size_t i = 0; i < n; i++)
			{
				if(in[i].type == FLUID)
				{
					V a{}; double as = 0;
					if(m.CENTRAL)
					{
						const double r = std::sqrt(dot(x0[i], x0[i], m.D));
						if(std::abs(r - 0.01 * q.l0) < 1e-9 * q.l0) ambiguous = "particle at the centre threshold";
						if(r >= 0.01 * q.l0) for(int c = 0; c < m.D; c++) a[c] -= q.g * x0[i][c] / r;
					}
					else a[m.D - 1] -= q.g;
					as += q.g;
					range(x0, i, [&](std::size_t j, double r, const V&)
					{
						if(in[j].type == DUMMY) return;
						const double w = q.nu * laplace(r);
						for(int c = 0; c < m.D; c++)
						{
							a[c] += w * (u0[j][c] - u0[i][c]); as += w * (std::abs(u0[j][c]) + std::abs(u0[i][c]));
						}
					});
					for(int c = 0; c < m.D; c++) { du1[i][c] = a[c] * dt; u1[i][c] += du1[i][c]; x1[i][c] += u1[i][c] * dt; }
					du1s[i] = as * dt;
				}
				else if(in[i].type != DISABLED)
				{
					const V x = law(i, t1, dt);
					for(int c = 0; c < m.D; c++) { u1[i][c] = (x[c] - x0[i][c]) / dt; x1[i][c] = x[c]; }
				}
			}
			for(std::size_t i = 0; i < n; i++) in[i].n = n0v[i];
			density(x1, nw1, n1v);
			// pressure
			P.assign(n, 0); for(std::size_t i = 0; i < n; i++) P[i] = in[i].p;
			if(m.EXPL)
			{
				for(std::size_t i = 0; i < n; i++) if(active(i))
				{
					const double rho = q.rho / k.n0 * n1v[i];
					P[i] = rho <= q.rho ? 0 : q.c * q.c * (rho - q.rho);
				}
				raw = P;
			}
			else assemble();
		}

		bool surface(std::size_t i) const { return !m.SPP && n1v[i] / k.n0 < q.surfaceRatio; }
		void assemble()
		{
			const std::size_t n = in.size();
			A.assign(n * n, 0); b.assign(n, 0); bs.assign(n, 0); identity.assign(n, 0);
			speed(x1, u1, nw1, n1v, speed1, speed1s);
			for(std::size_t i = 0; i < n; i++)
			{
				if(!active(i) || surface(i)) { identity[i] = 1; A[i * n + i] = 1; continue; }
				double d = 0;
				range(x1, i, [&](std::size_t j, double r, const V&)
				{
					if(in[j].type == DUMMY) return;
					const double a = laplace(r);
					d -= a;
					if(!surface(j)) A[i * n + j] = a;
				});
				const auto v = virt(x1, nw1, i);
				if(v.exists) d -= laplace(v.r);
				if(d == 0) { identity[i] = 1; A[i * n + i] = 1; continue; }
				A[i * n + i] = d;
				const double f = q.rho / (k.n0 * dt);
				b[i] = -f * (speed1[i] + ecs[i]);
				bs[i] = f * (speed1s[i] + ecss[i]);
			}
		}
		void solve()
		{
			const std::size_t n = in.size();
			if(m.EXPL || n == 0) return;
			std::vector<double> inv;
			// identity rows are decoupled and start solved: scale them like the rest, so that they do not spoil the condition
			double big = 0; for(std::size_t i = 0; i < n; i++) if(!identity[i]) big = std::max(big, std::abs(A[i * n + i]));
			auto B = A; if(big > 0) for(std::size_t i = 0; i < n; i++) if(identity[i]) B[i * n + i] = -big;
			solvable = solves(B, b, n, raw, &inv);
			if(!solvable) return;
			for(std::size_t i = 0; i < n; i++) { double s = 0; for(std::size_t j = 0; j < n; j++) s += std::abs(inv[i * n + j]); normInv = std::max(normInv, s); }
			double na = 0;
			for(std::size_t i = 0; i < n; i++) { double s = 0; for(std::size_t j = 0; j < n; j++) s += std::abs(B[i * n + j]); na = std::max(na, s); }
			cond = na * normInv;
			for(std::size_t i = 0; i < n; i++) if(active(i)) P[i] = std::max(0.0, raw[i]);
		}
		// conjugate gradients limited to n iterations may legitimately fail beyond this
		// (by the convergence bound 2 sqrt(cond) ((sqrt(cond)-1)/(sqrt(cond)+1))^n)
		bool mustSolve() const
		{
			const double s = std::sqrt(std::max(cond, 1.0)), f = (s - 1) / (s + 1);
			return 2 * s * std::pow(f, static_cast<double>(in.size())) < 0.1 * q.eps;
		}

		// pressure gradient, for given pressures p (those the code under test ended up with)
		std::vector<V> x2, u2; std::vector<double> du2s;
		std::vector<V> x3, u3; std::vector<double> du3s; int close = 0; std::vector<char> closeTo;
		std::vector<char> degenerate; // gradient-correction matrix too close to singular to compare
		void gradient(const std::vector<double>& p, const std::vector<V>& xx, const std::vector<V>& uu)
		{
			const std::size_t n = in.size();
			x2 = xx; u2 = uu; du2s.assign(n, 0); degenerate.assign(n, 0);
			for(std::size_t i = 0; i < n; i++)
			{
				if(in[i].type != FLUID) continue;
				const auto v = virt(xx, nw1, i);
				V d{}; double ds = 0;
				std::vector<double> C;
				if(m.GC)
				{
					const std::size_t D = static_cast<std::size_t>(m.D);
					std::vector<double> M(D * D, 0), z(D, 0), o;
					const auto put = [&](double r, const V& e)
					{
						for(std::size_t a = 0; a < D; a++) for(std::size_t c = 0; c < D; c++) M[a * D + c] += weight(r, k.re) / (r * r) * e[a] * e[c];
					};
					range(xx, i, [&](std::size_t, double r, const V& e) { put(r, e); });
					if(v.exists) put(v.r, v.off);
					double big = 0; for(double a : M) big = std::max(big, std::abs(a));
					bool zero = big == 0;
					if(zero) { C.assign(D * D, 0); for(std::size_t a = 0; a < D; a++) C[a * D + a] = D / k.n0; }
					else
					{
						if(!solves(M, z, D, o, &C)) { degenerate[i] = 1; continue; }
						double bi = 0; for(double a : C) bi = std::max(bi, std::abs(a));
						if(bi * big > condLimit) { degenerate[i] = 1; continue; }
					}
				}
				const auto add = [&](double pj, double r, const V& e)
				{
					const double pij = m.MID ? pj + p[i] : pj - p[i];
					const double w = weight(r, k.re) / (r * r);
					V ce = e; double cs = 1;
					if(m.GC)
					{
						const std::size_t D = static_cast<std::size_t>(m.D);
						ce = V{}; cs = 0;
						for(std::size_t a = 0; a < D; a++) for(std::size_t c = 0; c < D; c++) { ce[a] += C[a * D + c] * e[c]; cs += std::abs(C[a * D + c]); }
						const double f = -dt * n1v[i] / (q.rho * k.n0);
						for(int a = 0; a < m.D; a++) d[a] += f * pij * w * ce[a];
						ds += std::abs(f) * (std::abs(pj) + std::abs(p[i])) * w * r * cs;
						return;
					}
					const double f = -dt / q.rho * m.D / k.n0;
					for(int a = 0; a < m.D; a++) d[a] += f * pij * w * ce[a];
					ds += std::abs(f) * (std::abs(pj) + std::abs(p[i])) * w * r;
				};
				range(xx, i, [&](std::size_t j, double r, const V& e) { if(in[j].type != DUMMY) add(p[j], r, e); });
				if(v.exists) add(0, v.r, v.off);
				for(int a = 0; a < m.D; a++) { u2[i][a] += d[a]; x2[i][a] += d[a] * dt; }
				du2s[i] = ds;
			}
		}
		// dynamic stabilisation, from positions x2 (after the gradient) with pair directions of x1
		void stabilise()
		{
			const std::size_t n = in.size();
			x3 = x2; u3 = u2; du3s.assign(n, 0); closeTo.assign(n, 0);
			if(!m.DS) return;
			const double d = q.l0 - k.maxDx;
			for(std::size_t i = 0; i < n; i++)
			{
				if(in[i].type != FLUID) continue;
				V s{}; double ss = 0;
				range(x2, i, [&](std::size_t j, double r, const V& e)
				{
					if(in[j].type == DUMMY) return;
					if(std::abs(r - d) < 1e-6 * d) ambiguous = "pair at the repulsion distance";
					if(!(r < d)) return;
					V dir = sub(x1[j], x1[i]); const double l = std::sqrt(dot(dir, dir, m.D));
					for(auto& a : dir) a /= l;
					const double par = dot(e, dir, m.D);
					V per{}; for(int a = 0; a < m.D; a++) per[a] = e[a] - par * dir[a];
					const double f = std::sqrt(d * d - dot(per, per, m.D)) - par;
					for(int a = 0; a < m.D; a++) s[a] += f * dir[a];
					ss += d; close++; closeTo[i] = 1;
				});
				for(int a = 0; a < m.D; a++) { const double du = -s[a] / (2 * dt * k.n0); u3[i][a] += du; x3[i][a] += du * dt; }
				du3s[i] = ss / (2 * dt * k.n0);
			}
		}
	};
}
#endif
