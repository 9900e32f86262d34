// C27: Gauss-Jordan elimination
#include "gen.h"
#include <memory>
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C27";
const char* pbt::RULE = "square systems of 1 to 10 unknowns with 0 to 5 right-hand sides (as scalars, Vec2 and Vec3): general, with zero diagonals, permuted and triangular, of any scale (far outside float range in double), and exactly singular ones, in buffers of exactly their size; "
	"non-trivial: two or more unknowns and a pivot off the diagonal";

template <class R> struct Mat
{
	int n;
	std::unique_ptr<R[]> p;
	explicit Mat(int rows, int cols) : n(rows), p(new R[rows * cols]) {}
};
// inverse in long double with partial pivoting; false when it cannot be trusted
static bool invert(int n, std::vector<LD> a, std::vector<LD>& inv)
{
	inv.assign(n * n, 0);
	for (int i = 0; i < n; i++) inv[i * n + i] = 1;
	for (int i = 0; i < n; i++)
	{
		int k = i;
		for (int j = i; j < n; j++) if (fabsl(a[j * n + i]) > fabsl(a[k * n + i])) k = j;
		if (a[k * n + i] == 0) return false;
		for (int j = 0; j < n; j++) { std::swap(a[i * n + j], a[k * n + j]); std::swap(inv[i * n + j], inv[k * n + j]); }
		LD d = a[i * n + i];
		for (int j = 0; j < n; j++) { a[i * n + j] /= d; inv[i * n + j] /= d; }
		for (int r = 0; r < n; r++)
		{
			LD f = a[r * n + i];
			if (r == i || f == 0) continue;
			for (int j = 0; j < n; j++) { a[r * n + j] -= f * a[i * n + j]; inv[r * n + j] -= f * inv[i * n + j]; }
		}
	}
	return true;
}
static LD norm(int n, const std::vector<LD>& a)
{
	LD r = 0;
	for (int i = 0; i < n; i++) { LD s = 0; for (int j = 0; j < n; j++) s += fabsl(a[i * n + j]); r = std::max(r, s); }
	return r;
}

// which: 0 scalars, 1 Vec2, 2 Vec3
template <class R> static bool run(R* a, int n, R* b, int m, int which, Case& c)
{
	if (which == 0) return GaussJordan<R>::solve(a, n, b, m);
	bool ok;
	if (which == 1)
	{
		std::unique_ptr<Vec2<R>[]> v(new Vec2<R>[n]);
		for (int i = 0; i < n; i++) v[i] = Vec2<R>(b[i * 2], b[i * 2 + 1]);
		ok = GaussJordan<R>::solve(a, n, v.get());
		for (int i = 0; i < n; i++) { b[i * 2] = v[i].x; b[i * 2 + 1] = v[i].y; }
	}
	else
	{
		std::unique_ptr<Vec3<R>[]> v(new Vec3<R>[n]);
		for (int i = 0; i < n; i++) v[i] = Vec3<R>(b[i * 3], b[i * 3 + 1], b[i * 3 + 2]);
		ok = GaussJordan<R>::solve(a, n, v.get());
		for (int i = 0; i < n; i++) { b[i * 3] = v[i].x; b[i * 3 + 1] = v[i].y; b[i * 3 + 2] = v[i].z; }
	}
	return ok;
}
static void permutation(Case& c, int n, std::vector<int>& p)
{
	p.resize(n);
	for (int i = 0; i < n; i++) p[i] = i;
	for (int i = n - 1; i > 0; i--) std::swap(p[i], p[c.draw(i + 1)]);
}

LAW(regular, 1)
{
	const LD u = Num<Real>::u();
	int n = c.draw(24) == 23 ? c.range(8, 20) : c.range(1, c.draw(3) == 0 ? 10 : 4), which = int(c.draw(4));
	if (which == 3) which = 0;
	int m = which ? which + 1 : c.oneIn(8) ? c.range(6, 24) : c.range(0, 5);
	std::unique_ptr<Real[]> a(new Real[n * n]), b(new Real[n * m]);
	int kind = int(c.draw(5));
	std::vector<int> pr;
	permutation(c, n, pr);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
	{
		Real v = 0;
		switch (kind)
		{
		case 0: v = i == pr[j] ? nonzero<Real>(c, -3, 3) : Real(0); break;                    // a permuted diagonal
		case 1: v = i == j ? Real(0) : real<Real>(c, -3, 3); break;                            // nothing on the diagonal
		case 2: v = pr[i] <= j ? nonzero<Real>(c, -1, 3) : Real(0); break;                     // triangular, rows exchanged
		case 3: v = grid<Real>(c, 4); break;
		default: v = real<Real>(c, -3, 3);
		}
		a[i * n + j] = v;
	}
	// far from one: rows together, or each its own
	int wide = std::is_same<Real, double>::value ? 200 : 20, e = c.draw(3) == 0 ? c.range(-wide, wide) : 0;
	for (int i = 0; i < n * n; i++) a[i] = std::ldexp(a[i], e);
	if (c.draw(4) == 0) for (int i = 0; i < n; i++) { int q = c.range(-6, 6); for (int j = 0; j < n; j++) a[i * n + j] = std::ldexp(a[i * n + j], q); }
	for (int i = 0; i < n * m; i++) b[i] = real<Real>(c, -4, 4);
	std::vector<LD> A(n * n), B(n * m), inv, S(n * n);
	for (int i = 0; i < n * n; i++) { A[i] = a[i]; S[i] = std::ldexp(LD(a[i]), -e); }
	for (int i = 0; i < n * m; i++) B[i] = b[i];
	if (c.verbose) { c.show("n", n); c.show("m", m); c.show("which", which); for (int i = 0; i < n * n; i++) c.show("a", a[i]); for (int i = 0; i < n * m; i++) c.show("b", b[i]); }
	if (!invert(n, S, inv)) { pbt::discard(); }
	LD cond = norm(n, S) * norm(n, inv);
	if (!(cond < 1 / (1024 * u * n))) pbt::discard();
	LD na = norm(n, inv);
	bool offDiagonal = false;
	for (int i = 0; i < n; i++) { int k = 0; for (int j = 0; j < n; j++) if (fabsl(A[i * n + j]) > fabsl(A[i * n + k])) k = j; offDiagonal = offDiagonal || k != i; }
	c.nontrivial(n >= 2 && offDiagonal);
	if (kind == 0) c.label("permuted diagonal"); else if (kind == 1) c.label("zero diagonal");
	REQUIRE(run<Real>(a.get(), n, b.get(), m, which, c));
	// the inverse in place of the matrix (relative to the scale taken out)
	LD worst = 32 * n * n * u * cond * na;
	for (int i = 0; i < n * n; i++)
	{
		LD got = std::ldexp(LD(a[i]), e);
		c.nCompared++;
		if (!(fabsl(got - inv[i]) <= worst)) pbt::failWith("inverse[" + std::to_string(i / n) + "][" + std::to_string(i % n) + "] = " + pbt::str(got) + ", expected " + pbt::str(inv[i]) + " (times 2^-" + std::to_string(e) + ")");
	}
	// the solutions in place of the right-hand sides
	for (int k = 0; k < m; k++)
	{
		LD bb = 0;
		for (int i = 0; i < n; i++) bb = std::max(bb, fabsl(B[i * m + k]));
		for (int i = 0; i < n; i++)
		{
			LD x = 0;
			for (int j = 0; j < n; j++) x += inv[i * n + j] * B[j * m + k];
			LD got = std::ldexp(LD(b[i * m + k]), e);
			c.nCompared++;
			if (!(fabsl(got - x) <= worst * bb + 1e-30L)) pbt::failWith("solution[" + std::to_string(i) + "][" + std::to_string(k) + "] = " + pbt::str(got) + ", expected " + pbt::str(x));
		}
	}
}

// exactly singular in ways that survive elimination without rounding
LAW(singular, 0.4)
{
	int n = c.range(1, 8), which = int(c.draw(3)), m = which ? which + 1 : c.range(0, 3);
	std::unique_ptr<Real[]> a(new Real[n * n]), b(new Real[n * m]);
	int kind = int(c.draw(3));
	if (n == 1 && kind == 2) kind = 0;
	if (kind < 2)
	{
		// an empty row or column
		int k = int(c.draw(n));
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = (kind ? i : j) == k ? Real(0) : real<Real>(c, -3, 3);
		c.label(kind ? "empty row" : "empty column");
	}
	else
	{
		// one entry of a power of two a row, two of the rows in the same column
		std::vector<int> p;
		permutation(c, n, p);
		p[c.draw(n - 1)] = p[n - 1];
		std::vector<int> q;
		permutation(c, n, q);
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = p[q[i]] == j ? std::ldexp(Real(c.flip() ? -1 : 1), c.range(-3, 3)) : Real(0);
		c.label("dependent rows");
	}
	for (int i = 0; i < n * m; i++) b[i] = real<Real>(c, -4, 4);
	if (c.verbose) { c.show("n", n); for (int i = 0; i < n * n; i++) c.show("a", a[i]); }
	c.nontrivial(n >= 2);
	REQUIRE(!run<Real>(a.get(), n, b.get(), m, which, c));
}
