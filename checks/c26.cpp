// C26: tridiagonal and cyclic systems
#include "gen.h"
#include <memory>
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C26";
const char* pbt::RULE = "systems of 1 to 60 equations, diagonally dominant by rows with any signs and scales, with zero off-diagonals, in buffers of exactly the documented size; systems whose elimination breaks down at a chosen row in exact arithmetic; singular cyclic systems; "
	"non-trivial: three or more equations with non-zero off-diagonals";

template <class R> struct Buf
{
	std::unique_ptr<R[]> p;
	std::vector<R> keep;
	int n;
	explicit Buf(int n_) : p(new R[n_ > 0 ? n_ : 0]), n(n_) { for (int i = 0; i < n; i++) p[i] = R(0); }
	R& operator[](int i) { return p[i]; }
	R* get() { return p.get(); }
	void freeze() { keep.assign(p.get(), p.get() + n); }
	bool kept() { for (int i = 0; i < n; i++) if (!(p[i] == keep[i])) return false; return true; }
};
template <class R> struct Sys
{
	int n;
	Buf<R> a, b, c, r;
	R alpha = 0, beta = 0;
	Sys(int n_) : n(n_), a(n_ - 1), b(n_), c(n_ - 1), r(n_) {}
	void freeze() { a.freeze(); b.freeze(); c.freeze(); r.freeze(); }
	bool kept() { return a.kept() && b.kept() && c.kept() && r.kept(); }
	// row i times x: the sum and the sum of magnitudes
	template <class F> void row(int i, F x, LD& s, LD& m) const
	{
		s = LD(b.p[i]) * x(i); m = fabsl(s);
		auto add = [&](LD t) { s += t; m += fabsl(t); };
		if (i > 0) add(LD(a.p[i - 1]) * x(i - 1));
		if (i < n - 1) add(LD(c.p[i]) * x(i + 1));
		if (n > 2 && i == n - 1) add(LD(alpha) * x(0));
		if (n > 2 && i == 0) add(LD(beta) * x(n - 1));
	}
	void show(Case& k)
	{
		if (!k.verbose) return;
		for (int i = 0; i < n - 1; i++) k.show("a", a[i]);
		for (int i = 0; i < n; i++) k.show("b", b[i]);
		for (int i = 0; i < n - 1; i++) k.show("c", c[i]);
		for (int i = 0; i < n; i++) k.show("r", r[i]);
		k.show("alpha", alpha); k.show("beta", beta);
	}
};
template <class R> static R small(Case& c) { return c.draw(6) == 5 ? R(0) : real<R>(c, -4, 4); }
template <class R> static void dominant(Case& c, Sys<R>& s, bool cyclic)
{
	for (int i = 0; i < s.n - 1; i++) { s.a[i] = small<R>(c); s.c[i] = small<R>(c); }
	if (cyclic) { s.alpha = small<R>(c); s.beta = small<R>(c); }
	for (int i = 0; i < s.n; i++)
	{
		LD off = (i > 0 ? fabsl(s.a[i - 1]) : 0) + (i < s.n - 1 ? fabsl(s.c[i]) : 0) + (i == 0 ? fabsl(s.beta) : 0) + (i == s.n - 1 ? fabsl(s.alpha) : 0);
		LD d = off * (1 + LD(between<R>(c, R(0.02), R(2)))) + (off == 0 ? 1 : 0);
		s.b[i] = R(c.flip() ? -d : d);
		s.r[i] = real<R>(c, -4, 4);
	}
	// each equation may be multiplied through by anything
	int wide = sizeof(R) == 4 ? 20 : 150;
	bool all = c.draw(4) == 0, each = !cyclic && c.draw(4) == 0;
	int e = all ? c.range(-wide, wide) : 0;
	if (all || each) for (int i = 0; i < s.n; i++)
	{
		int k = e + (each ? c.range(-8, 8) : 0);
		if (i > 0) s.a[i - 1] = std::ldexp(s.a[i - 1], k);
		if (i < s.n - 1) s.c[i] = std::ldexp(s.c[i], k);
		s.b[i] = std::ldexp(s.b[i], k); s.r[i] = std::ldexp(s.r[i], k);
		if (i == 0) s.beta = std::ldexp(s.beta, k);
		if (i == s.n - 1) s.alpha = std::ldexp(s.alpha, k);
	}
	if (all) c.label("another scale");
}
static int size(Case& c, int lo) { return gen::count(c, lo, c.draw(4) == 0 ? 40 : lo + 7, 80); }

template <class R> static bool solveV(Sys<R>& s, Case& c, bool expect)
{
	// the same system for vectors, with x carrying r
	Buf<R> ry(s.n), rz(s.n);
	std::unique_ptr<Vec3<R>[]> rv(new Vec3<R>[s.n]), x(new Vec3<R>[s.n]);
	for (int i = 0; i < s.n; i++) { ry[i] = real<R>(c, -4, 4); rz[i] = real<R>(c, -4, 4); rv[i] = Vec3<R>(s.r[i], ry[i], rz[i]); }
	bool ok = TriDiagonal<R>::solve(s.a.get(), s.b.get(), s.c.get(), rv.get(), x.get(), s.n);
	c.nCompared++;
	if (ok != expect) pbt::failWith("the vector solver answers otherwise");
	for (int i = 0; i < s.n; i++) { SAME3(rv[i], (Vec3<R>(s.r[i], ry[i], rz[i]))); }
	if (!ok) return ok;
	for (int k = 0; k < 3; k++)
		for (int i = 0; i < s.n; i++)
		{
			LD sum, m;
			s.row(i, [&](int j) { return LD(k == 0 ? x[j].x : k == 1 ? x[j].y : x[j].z); }, sum, m);
			LD want = k == 0 ? s.r[i] : k == 1 ? ry[i] : rz[i];
			c.nCompared++;
			if (!(fabsl(sum - want) <= 64 * Num<R>::u() * (m + fabsl(want)) + 1e-60L)) pbt::failWith("vector equation " + std::to_string(i) + "." + "xyz"[k] + " is off by " + pbt::str(sum - want));
		}
	return ok;
}

LAW(tridiagonal, 1)
{
	int n = size(c, 1);
	Sys<Real> s(n);
	dominant(c, s, false);
	s.freeze();
	s.show(c);
	c.nontrivial(n >= 3 && s.a[0] != 0 && s.c[0] != 0);
	Buf<Real> x(n);
	REQUIRE(TriDiagonal<Real>::solve(s.a.get(), s.b.get(), s.c.get(), s.r.get(), x.get(), n));
	REQUIRE(s.kept());
	for (int i = 0; i < n; i++)
	{
		LD sum, m;
		s.row(i, [&](int j) { return LD(x[j]); }, sum, m);
		CLOSE(Real(sum), s.r[i], 64 * Num<Real>::u() * (m + fabsl(s.r[i])) + 1e-60L);
	}
	solveV(s, c, true);
	REQUIRE(s.kept());
}

LAW(cyclic, 1)
{
	int n = size(c, 3);
	Sys<Real> s(n);
	dominant(c, s, true);
	s.freeze();
	s.show(c);
	c.nontrivial(s.a[0] != 0 && s.c[0] != 0 && (s.alpha != 0 || s.beta != 0));
	Buf<Real> x(n);
	REQUIRE(TriDiagonal<Real>::solveCyclic(s.a.get(), s.b.get(), s.c.get(), s.alpha, s.beta, s.r.get(), x.get(), n));
	REQUIRE(s.kept());
	// relative to the whole system: the correction mixes all equations
	LD big = 0, norm = 0;
	for (int i = 0; i < n; i++) { big = std::max(big, fabsl(x[i])); norm = std::max(norm, 2 * fabsl(s.b[i])); }
	for (int i = 0; i < n; i++)
	{
		LD sum, m;
		s.row(i, [&](int j) { return LD(x[j]); }, sum, m);
		LD tol = 64 * Num<Real>::u() * (m + fabsl(s.r[i]) + 2 * fabsl(s.b[i]) * big * 8) + 1e-60L;
		if (i == 0 || i == n - 1) tol += 64 * Num<Real>::u() * norm * big * 8;
		CLOSE(Real(sum), s.r[i], tol);
	}
}

// fewer than three equations have no corners
LAW(cyclicSmall, 0.1)
{
	int n = c.range(1, 2);
	Sys<Real> s(n);
	dominant(c, s, false);
	Buf<Real> x(n);
	c.nontrivial(n == 2);
	REQUIRE(!TriDiagonal<Real>::solveCyclic(s.a.get(), s.b.get(), s.c.get(), Real(1), Real(1), s.r.get(), x.get(), n));
}

// a zero pivot at row k, every step before it exact
LAW(breakdown, 0.7)
{
	int n = c.range(1, 10), k = int(c.draw(n));
	Sys<Real> s(n);
	LD pivot = 0;
	for (int i = 0; i < n; i++)
	{
		if (i < n - 1) { s.a[i] = grid<Real>(c, 3); s.c[i] = grid<Real>(c, 3); }
		LD p = i == k ? 0 : std::ldexp(1.0, c.range(-1, 1)) * (c.flip() ? -1 : 1);
		LD carried = i > 0 && i <= k ? LD(s.a[i - 1]) * s.c[i - 1] / pivot : 0;
		s.b[i] = Real(p + carried);
		s.r[i] = grid<Real>(c, 5);
		pivot = p;
	}
	s.freeze();
	s.show(c);
	c.nontrivial(k > 0);
	Buf<Real> x(n);
	REQUIRE(!TriDiagonal<Real>::solve(s.a.get(), s.b.get(), s.c.get(), s.r.get(), x.get(), n));
	REQUIRE(s.kept());
	solveV(s, c, false);
	if (n >= 3) REQUIRE(!TriDiagonal<Real>::solveCyclic(s.a.get(), s.b.get(), s.c.get(), Real(0), Real(0), s.r.get(), x.get(), n));
}

// a cyclic system built from chosen exact quantities, singular only through its corners
LAW(cyclicSingular, 0.3)
{
	// rows sum to zero in three equations: (2 -1 -1; -1 2 -1; -1 -1 2) with rows and columns scaled
	// by powers of two, in which the elimination is exact
	int n = 3;
	Sys<Real> s(n);
	Real k = Real(std::ldexp(1.0, c.range(-8, 8))) * (c.flip() ? Real(-1) : Real(1));
	static const int T[4][9] = {
		{1, 1, 1, 1, 1, 1, 1, 1, 1},              // all equal: breaks down inside
		{2, 2, 0, 0, 2, -2, 2, 2, 0},             // first and last rows dependent through the corner
		{2, 0, 2, 0, 2, 0, 2, 0, 2},
		{1, 0, -1, 0, 4, 0, -1, 0, 1}};
	const int* m = T[c.draw(4)];
	s.b[0] = m[0] * k; s.c[0] = m[1] * k; s.beta = m[2] * k;
	s.a[0] = m[3] * k; s.b[1] = m[4] * k; s.c[1] = m[5] * k;
	s.alpha = m[6] * k; s.a[1] = m[7] * k; s.b[2] = m[8] * k;
	for (int i = 0; i < n; i++) s.r[i] = grid<Real>(c, 5);
	s.freeze();
	s.show(c);
	c.nontrivial();
	Buf<Real> x(n);
	REQUIRE(!TriDiagonal<Real>::solveCyclic(s.a.get(), s.b.get(), s.c.get(), s.alpha, s.beta, s.r.get(), x.get(), n));
	REQUIRE(s.kept());
}
