// C12: the linear solver returns a solution or raises an error.
// Symmetric definite systems with chosen spectra and structures are put directly into the solver, several in a row with
// different sizes; the true residual decides.
#include "compare.hpp"
#include <numeric>

struct Sys { std::size_t n; std::vector<double> A, b, x; double lo, hi; std::string kind; bool solved = false; };

static Sys gen(pbt::Case& c, double eps)
{
	auto& s = c.s; Sys y;
	y.n = static_cast<std::size_t>(s.integer(1, s.chance(15) ? 60 : 14));
	y.A.assign(y.n * y.n, 0); y.b.assign(y.n, 0); y.x.assign(y.n, 0);
	const double sign = s.chance(75) ? -1 : 1, scale = s.pick({1.0, 1e4, 1e-3, 1e6});
	int kind = s.integer(0, 3);
	if(s.chance(2))
	{
		// a large one: particles on a rectangle, coupled to their neighbours, with a free surface
		const int w = s.integer(6, 14), h = s.integer(6, 14); kind = 4;
		y.n = static_cast<std::size_t>(w * h); const std::size_t m = y.n; y.A.assign(m * m, 0); y.b.assign(m, 0); y.x.assign(m, 0);
		const double diag = s.chance(50) ? s.real(0.1, 0.6) : 0.0, all = s.pick({0.0, 0.02, 0.05});
		for(int i = 0; i < w; i++) for(int j = 0; j < h; j++)
		{
			const auto id = [&](int a, int b) { return static_cast<std::size_t>(a * h + b); };
			const auto link = [&](int a, int b, double f)
			{
				if(a < 0 || b < 0 || a >= w || b >= h) return;
				const std::size_t p = id(i, j), r = id(a, b); const double v = f * s.real(0.8, 1.2);
				y.A[p * m + r] -= v; y.A[r * m + p] -= v; y.A[p * m + p] += v; y.A[r * m + r] += v;
			};
			link(i + 1, j, 1); link(i, j + 1, 1); if(diag > 0) { link(i + 1, j + 1, diag); link(i + 1, j - 1, diag); }
			y.A[id(i, j) * m + id(i, j)] += all + (j == h - 1 ? s.real(0.5, 2) : 0);
		}
		y.kind = "large grid";
	}
	const std::size_t n = y.n;
	if(kind == 4) {}
	else if(kind == 0)
	{
		// chosen spectrum, random orthogonal basis (product of Householder reflections)
		const double cond = s.logreal(1, s.pick({3.0, 30.0, 1e3, 1e5}));
		const int spread = s.integer(0, 2);
		for(std::size_t i = 0; i < n; i++) { const double f = n > 1 ? double(i) / double(n - 1) : 0; y.A[i * n + i] = spread == 0 ? 1 + (cond - 1) * f : spread == 1 ? std::pow(cond, f) : (i == 0 ? 1 : cond); }
		for(int h = s.integer(0, 3); h > 0; h--)
		{
			std::vector<double> v(n); double m = 0; for(auto& a : v) { a = s.sym(1); m += a * a; }
			if(m < 1e-6) continue;
			const auto reflect = [&](std::size_t stride, std::size_t step)
			{
				for(std::size_t k = 0; k < n; k++)
				{
					double d = 0; for(std::size_t i = 0; i < n; i++) d += v[i] * y.A[i * stride + k * step];
					for(std::size_t i = 0; i < n; i++) y.A[i * stride + k * step] -= 2 * d / m * v[i];
				}
			};
			reflect(n, 1); reflect(1, n);
		}
		for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < i; j++) y.A[i * n + j] = y.A[j * n + i] = 0.5 * (y.A[i * n + j] + y.A[j * n + i]);
		y.kind = "spectrum";
	}
	else if(kind == 1)
	{
		// weighted graph Laplacian plus surface terms, with some p = 0 rows as the method produces (same sign)
		for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < i; j++) if(s.chance(n < 6 ? 70 : 30))
		{
			const double w = s.real(0.05, 2); y.A[i * n + j] -= w; y.A[j * n + i] -= w; y.A[i * n + i] += w; y.A[j * n + j] += w;
		}
		for(std::size_t i = 0; i < n; i++) y.A[i * n + i] += s.chance(50) ? s.real(0.05, 2) : 0.02;
		y.kind = "laplacian";
	}
	else if(kind == 2)
	{
		for(std::size_t i = 0; i < n; i++) y.A[i * n + i] = s.logreal(1, s.pick({2.0, 100.0}));
		y.kind = "diagonal";
	}
	else
	{
		// small integers: residuals are computed exactly
		for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < i; j++) if(s.chance(40)) { const int w = s.integer(1, 4); y.A[i * n + j] = y.A[j * n + i] = -w; }
		for(std::size_t i = 0; i < n; i++) { double d = 1 + s.integer(0, 3); for(std::size_t j = 0; j < n; j++) if(j != i) d += std::abs(y.A[i * n + j]); y.A[i * n + i] = d; }
		y.kind = "integers";
	}
	const double f = kind == 3 ? sign : sign * scale;
	for(auto& a : y.A) a *= f;
	const double xm = s.pick({1.0, 1e3, 1e-2});
	std::vector<double> x(n); for(auto& a : x) a = kind == 3 ? s.integer(-9, 9) : s.sym(xm);
	for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < n; j++) y.b[i] += y.A[i * n + j] * x[j];
	switch(s.upto(4))
	{
	case 0: break; // zero guess
	case 1: if(kind == 3) { y.x = x; y.solved = true; } break;
	case 2: for(std::size_t i = 0; i < n; i++) y.x[i] = x[i] * (1 + s.sym(1e-3)); break;
	case 3: for(auto& a : y.x) a = s.sym(1) * xm * 100; break;
	default: for(auto& a : y.x) a = s.real(0, xm); break;
	}
	if(s.chance(8)) std::fill(y.b.begin(), y.b.end(), 0.0), y.solved = false;
	if(s.chance(6))
	{
		// extreme magnitudes: the squared residual demanded close to the smallest numbers, or very large (scaling by a power of two is exact)
		double r0 = 0;
		for(std::size_t i = 0; i < n; i++) { double r = y.b[i]; for(std::size_t j = 0; j < n; j++) r -= y.A[i * n + j] * y.x[j]; r0 += r * r; }
		r0 = std::sqrt(r0);
		const double target = s.chance(60) ? std::pow(10.0, s.real(-155.5, -150)) / eps : std::pow(10.0, s.real(60, 130));
		if(r0 > 0)
		{
			const double k = std::exp2(std::round(std::log2(target / r0)));
			for(auto& a : y.b) a *= k;
			for(auto& a : y.x) a *= k;
			c.label(target < 1 ? "tiny values" : "huge values");
		}
	}
	return y;
}

// systems outside the solver's domain: indefinite, singular or not numbers at all. Whatever happens, what is returned as a
// solution is one.
static void breakdown(pbt::Case& c)
{
	auto& s = c.s;
	Params q; q.l0 = 0.1; q.minX = V{}; q.maxX = V{1, 1, 1}; q.maxDt = 1e-3; q.eps = s.pick({1e-10, 1e-6, 1e-4});
	sut::Sim sim(q, [](std::size_t, double, double) { return V{}; });
	const std::size_t n = static_cast<std::size_t>(s.integer(1, 7));
	std::vector<double> A(n * n, 0.0), b(n), x(n, 0.0);
	const bool singular = s.chance(40);
	for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j <= i; j++) A[i * n + j] = A[j * n + i] = s.chance(60) ? s.integer(-3, 3) : 0;
	if(singular) for(std::size_t i = 0; i < n; i++) { A[i * n + i] = 0; double d = 0; for(std::size_t j = 0; j < n; j++) d += A[i * n + j]; A[i * n + i] = -d; }
	for(auto& v : b) v = s.integer(-4, 4);
	if(s.chance(50)) for(auto& v : x) v = s.integer(-4, 4);
	const int bad = s.integer(0, 3); bool notNumbers = false;
	const double odd = s.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1e200, -1e300});
	if(bad == 1) { b[s.upto(n - 1)] = odd; notNumbers = !std::isfinite(odd); }
	if(bad == 2) { const auto k = s.upto(n - 1); x[k] = odd; A[k * n + k] = 2; notNumbers = !std::isfinite(odd); }
	auto& e = sut::Access::Ppe(sim.c());
	using P = std::remove_reference_t<decltype(e)>;
	using M = typename P::Matrix; using LV = typename P::LongVector;
	e.A = M{n, n}; e.x = LV(n); e.b = LV(n); e.cg.r = LV(n); e.cg.p = LV(n); e.cg.Ap = LV(n);
#if V_VIENNACL
	typename P::TempMatrix tmp(n, n);
	for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < n; j++) if(A[i * n + j] != 0) tmp(i, j) = A[i * n + j];
	for(std::size_t i = 0; i < n; i++) if(A[i * n + i] == 0) tmp(i, i) = 0.0;
	viennacl::copy(tmp, e.A);
#else
	e.A.clear();
	for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < n; j++) if(A[i * n + j] != 0) e.A(i, j) = A[i * n + j];
#endif
	for(std::size_t i = 0; i < n; i++) { e.b(i) = b[i]; e.x(i) = x[i]; }
	std::ostringstream t; t << std::setprecision(17); for(auto v : A) t << v << " "; t << "| "; for(auto v : b) t << v << " "; t << "| "; for(auto v : x) t << v << " ";
	c.note("A | b | guess", t.str());
	// the recurrence on the side: is it far from any breakdown?
	bool tame = std::abs(odd) < 2 || bad == 0 || bad == 3; double biggest = 0, r0 = 0, na = 0;
	{
		std::vector<double> r(n), p, y = x;
		double rr = 0;
		for(std::size_t i = 0; i < n; i++) { r[i] = b[i]; double sa = 0; for(std::size_t j = 0; j < n; j++) { r[i] -= A[i * n + j] * x[j]; sa += std::abs(A[i * n + j]); } rr += r[i] * r[i]; na = std::max(na, sa); biggest = std::max(biggest, std::abs(x[i])); }
		p = r; r0 = std::sqrt(rr);
		for(std::size_t k = 0; k < n && tame && rr > 1e-20 * r0 * r0; k++)
		{
			std::vector<double> Ap(n, 0.0); double pAp = 0, l = 0, m = 0;
			for(std::size_t i = 0; i < n; i++) { for(std::size_t j = 0; j < n; j++) Ap[i] += A[i * n + j] * p[j]; pAp += p[i] * Ap[i]; l += p[i] * p[i]; m += Ap[i] * Ap[i]; }
			if(!(std::abs(pAp) > 1e-4 * std::sqrt(l * m))) { tame = false; break; }
			const double al = rr / pAp; double w = 0;
			for(std::size_t i = 0; i < n; i++) { y[i] += al * p[i]; r[i] -= al * Ap[i]; w += r[i] * r[i]; biggest = std::max(biggest, std::abs(y[i])); }
			for(std::size_t i = 0; i < n; i++) p[i] = r[i] + w / rr * p[i];
			rr = w;
		}
	}
	bool threw = false; std::string err;
	try { sut::Access::Solve(sim.c()); }
	catch(const typename std::remove_reference_t<decltype(sim.c())>::Exception& z) { threw = true; err = z.what(); }
	c.label(threw ? "outside its domain: raised the exception" : "outside its domain: returned");
	if(threw) { REQUIRE(c, !err.empty(), "empty error message"); c.nontrivial = true; return; }
	REQUIRE(c, !notNumbers, "the solver returned a result for a system that does not consist of numbers");
	double r1 = 0;
	for(std::size_t i = 0; i < n; i++)
	{
		REQUIRE(c, std::isfinite(e.x(i)), "the solver returned a vector that is not finite");
		double r = b[i]; for(std::size_t j = 0; j < n; j++) r -= A[i * n + j] * e.x(j);
		r1 += r * r;
	}
	if(tame) REQUIRE(c, std::sqrt(r1) <= q.eps * r0 * (1 + 1e-6) + 1e-12 * (n + 2) * (na * biggest + r0), "the solver returned a vector with residual " + num(std::sqrt(r1)) + " for an initial one of " + num(r0));
	c.nontrivial = r0 > 0;
}

static void prop(pbt::Case& c)
{
	auto& s = c.s;
	if(s.chance(12)) { breakdown(c); return; }
	Params q; q.l0 = 0.1; q.minX = V{}; q.maxX = V{1, 1, 1}; q.maxDt = 1e-3;
	q.eps = s.pick({1e-10, 1e-8, 1e-6, 1e-4, 1e-9});
	sut::Sim sim(q, [](std::size_t, double, double) { return V{}; });
	const int m = s.integer(1, 3); bool moved = false; std::string trace;
	for(int k = 0; k < m; k++)
	{
		Sys y = gen(c, q.eps); const std::size_t n = y.n;
		auto& ppe = sut::Access::Ppe(sim.c());
		using P = std::remove_reference_t<decltype(ppe)>;
		using M = typename P::Matrix; using LV = typename P::LongVector;
#if V_VIENNACL
		// vectors of another size cannot be assigned: a fresh system, as a fresh space would have
		sut::Sim fresh(q, [](std::size_t, double, double) { return V{}; });
		const bool reuse = ppe.b.size() == n;
		auto& e = reuse ? ppe : sut::Access::Ppe(fresh.c());
		auto& who = reuse ? sim : fresh;
		if(e.b.size() == 0)
#else
		auto& e = ppe; auto& who = sim;
#endif
		{ e.A = M{n, n}; e.x = LV(n); e.b = LV(n); e.cg.r = LV(n); e.cg.p = LV(n); e.cg.Ap = LV(n); }
#if V_VIENNACL
		typename P::TempMatrix tmp(n, n);
		for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < n; j++) if(y.A[i * n + j] != 0) tmp(i, j) = y.A[i * n + j];
		viennacl::copy(tmp, e.A);
#else
		e.A.clear();
		for(std::size_t i = 0; i < n; i++) for(std::size_t j = 0; j < n; j++) if(y.A[i * n + j] != 0) e.A(i, j) = y.A[i * n + j];
#endif
		for(std::size_t i = 0; i < n; i++) { e.b(i) = y.b[i]; e.x(i) = y.x[i]; }
		std::vector<double> exact, inv;
		const bool ok = ref::solves(y.A, y.b, n, exact, &inv);
		if(!ok) c.discard("numerically singular");
		double na = 0, ni = 0, r0 = 0, xs = 0, x0 = 0;
		for(std::size_t i = 0; i < n; i++)
		{
			double sa = 0, si = 0, r = y.b[i];
			for(std::size_t j = 0; j < n; j++) { sa += std::abs(y.A[i * n + j]); si += std::abs(inv[i * n + j]); r -= y.A[i * n + j] * y.x[j]; }
			na = std::max(na, sa); ni = std::max(ni, si); r0 += r * r; xs += exact[i] * exact[i]; x0 += (exact[i] - y.x[i]) * (exact[i] - y.x[i]);
		}
		r0 = std::sqrt(r0); const double cond = na * ni;
		const double size = na * (std::sqrt(xs) + (1 + std::sqrt(cond)) * std::sqrt(x0)) * 1e-15 * double(n + 2);
		const double sq = std::sqrt(cond), rate = (sq - 1) / (sq + 1);
		// by the bound of conjugate gradients, or by their finite termination (small, well conditioned: rounding is no obstacle)
		const bool must = size < 0.01 * q.eps * r0 && cond < 1e5 && (2 * sq * std::pow(rate, double(n)) < 0.1 * q.eps || (n <= 5 && cond < 20 && q.eps >= 1e-9));
		bool threw = false; std::string err;
		try { sut::Access::Solve(who.c()); }
		catch(const typename std::remove_reference_t<decltype(who.c())>::Exception& x) { threw = true; err = x.what(); }
		std::vector<double> got(n); for(std::size_t i = 0; i < n; i++) got[i] = e.x(i);
		const std::string what = y.kind + " n=" + num(n) + " cond=" + num(cond) + " eps=" + num(q.eps) + " initial residual=" + num(r0);
		trace += what + "; "; c.note("systems", trace);
		c.label(y.kind); c.label(n < 3 ? "n<3" : n < 10 ? "n<10" : n <= 60 ? "n>=10" : "n>60"); c.label(must ? "must be solved" : "may fail");
		if(threw)
		{
			c.label("raised the exception");
			REQUIRE(c, !must, "the solver gave up (" + err + ") on a system that must be solved: " + what);
			REQUIRE(c, !(y.solved), "the solver gave up although the guess solves the system: " + what);
			REQUIRE(c, !err.empty(), "empty error message");
			continue;
		}
		double r1 = 0;
		for(std::size_t i = 0; i < n; i++)
		{
			REQUIRE(c, std::isfinite(got[i]), "the solver returned a non-finite vector: " + what);
			double r = y.b[i]; for(std::size_t j = 0; j < n; j++) r -= y.A[i * n + j] * got[j];
			r1 += r * r;
		}
		r1 = std::sqrt(r1);
		REQUIRE(c, r1 <= q.eps * r0 * (1 + 1e-6) + size, "the solver returned a vector with residual " + num(r1) + " = " + num(r1 / r0) + " of the initial one: " + what);
		if(y.solved) { for(std::size_t i = 0; i < n; i++) REQUIRE(c, got[i] == y.x[i], "a guess that solves the system was changed: " + what); c.label("guess already solves"); }
		if(r0 > 0 && size < q.eps * r0) { moved = true; c.label("residual decided tightly"); }
	}
	c.nontrivial = moved;
}
PBT_MAIN("C12", prop)
