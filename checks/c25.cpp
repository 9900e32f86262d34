// C25: splines through points
#include "gen.h"
#include <memory>
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C25";
const char* pbt::RULE = "lists of 2 to 40 points, in general position, repeated, on lines and grids, near and far; natural ends, given end controls, closed; outputs in buffers of exactly the documented size; "
	"non-trivial: four or more points, not all equal";

template <class R> struct Lists
{
	std::unique_ptr<Vec3<R>[]> p1, p2, p3;
	std::vector<Vec3<R>> keep;
	LD big = 0;
	int n;
	Lists(Case& c, int least, int segmentsLess)
	{
		n = gen::count(c, least, c.draw(3) == 0 ? 30 : least + 6, 70);
		int mode = int(c.draw(4));
		c.show("points", n);
		p1.reset(new Vec3<R>[n]);
		p2.reset(new Vec3<R>[n - segmentsLess]);
		p3.reset(new Vec3<R>[n - segmentsLess]);
		for (int i = 0; i < n; i++)
		{
			Vec3<R> q;
			if (mode == 0) q = Vec3<R>(grid<R>(c), grid<R>(c), grid<R>(c));
			else if (mode == 1 && i) { q = p1[i - 1]; q.x += R(1); q.y += real<R>(c, -4, 2); }
			else if (i && c.draw(8) == 7) q = p1[c.draw(i)];
			else q = vec3<R>(c, -4, 6);
			p1[i] = q;
			keep.push_back(q);
			c.show("p", s(q));
			big = std::max(big, len(q.x, q.y, q.z));
		}
		for (int i = 0; i < n - segmentsLess; i++) { p2[i] = Vec3<R>(R(777), R(777), R(777)); p3[i] = p2[i]; }
		bool moving = false;
		for (int i = 1; i < n; i++) moving = moving || !(p1[i].x == p1[0].x && p1[i].y == p1[0].y && p1[i].z == p1[0].z);
		c.nontrivial(n >= 4 && moving);
	}
	void inputsKept(Case& c) { for (int i = 0; i < n; i++) SAME3(p1[i], keep[i]); }
};
struct P3 { LD v[3]; };
template <class R> static P3 of(const Vec3<R>& a) { return P3{{LD(a.x), LD(a.y), LD(a.z)}}; }
static void zero(Case& c, const char* what, int i, LD a, LD b, LD d, LD e, LD tol, P3 p, P3 q, P3 r, P3 s)
{
	c.nCompared++;
	for (int k = 0; k < 3; k++)
	{
		LD v = a * p.v[k] + b * q.v[k] + d * r.v[k] + e * s.v[k];
		if (!(fabsl(v) <= tol)) pbt::failWith(std::string(what) + " at " + std::to_string(i) + " is off by " + pbt::str(v) + " (allowed " + pbt::str(tol) + ")");
	}
}
// at the point between segment i and segment j: equal slopes and curvatures
template <class R> static void joins(Case& c, const Lists<R>& l, int i, int j, LD tol)
{
	P3 o{{0, 0, 0}};
	// p3 .. p1' .. p2' evenly about the point
	zero(c, "the slope", j, 1, 1, -2, 0, tol, of(l.p3[i]), of(l.p2[j]), of(l.p1[j]), o);
	// p2 - 2 p3 + p = p - 2 p2' + p3'
	zero(c, "the curvature", j, 1, -2, 2, -1, tol, of(l.p2[i]), of(l.p3[i]), of(l.p2[j]), of(l.p3[j]));
}

LAW(natural, 1)
{
	Lists<Real> l(c, 2, 1);
	REQUIRE(SplineSolver3<Real>::naturalBezierSpline(l.n, l.p1.get(), l.p2.get(), l.p3.get()));
	l.inputsKept(c);
	LD tol = 64 * Num<Real>::u() * l.big + 1e-30L;
	int m = l.n - 1;
	P3 o{{0, 0, 0}};
	for (int i = 1; i < m; i++) joins(c, l, i - 1, i, tol);
	zero(c, "the curvature of the start", 0, 1, -2, 1, 0, tol, of(l.p1[0]), of(l.p2[0]), of(l.p3[0]), o);
	zero(c, "the curvature of the end", m, 1, -2, 1, 0, tol, of(l.p2[m - 1]), of(l.p3[m - 1]), of(l.p1[m]), o);
}

LAW(clamped, 1)
{
	Lists<Real> l(c, 2, 1);
	Vec3<Real> a = vec3<Real>(c, -4, 6), b = vec3<Real>(c, -4, 6);
	SHOWV(a); SHOWV(b);
	REQUIRE(SplineSolver3<Real>::bezierSpline(l.n, l.p1.get(), a, b, l.p2.get(), l.p3.get()));
	l.inputsKept(c);
	LD big = std::max(l.big, std::max(len(a.x, a.y, a.z), len(b.x, b.y, b.z)));
	LD tol = 64 * Num<Real>::u() * big + 1e-30L;
	int m = l.n - 1;
	for (int i = 1; i < m; i++) joins(c, l, i - 1, i, tol);
	LD u4 = 8 * Num<Real>::u() * big;
	NEAR3(l.p2[0], (v3<Real>(a.x, a.y, a.z, u4)));
	NEAR3(l.p3[m - 1], (v3<Real>(b.x, b.y, b.z, u4)));
}

LAW(closed, 1)
{
	Lists<Real> l(c, 2, 0);
	REQUIRE(SplineSolver3<Real>::closedBezierSpline(l.n, l.p1.get(), l.p2.get(), l.p3.get()));
	l.inputsKept(c);
	LD tol = 256 * Num<Real>::u() * l.big + 1e-30L;
	if (l.n == 2) c.label("two points");
	for (int i = 0; i < l.n; i++) joins(c, l, (i + l.n - 1) % l.n, i, tol);
}

// the curve depends on the points as geometry: moved points, and points in reverse order
LAW(reversed, 0.3)
{
	Lists<Real> l(c, 2, 1);
	std::unique_ptr<Vec3<Real>[]> q(new Vec3<Real>[l.n]), q2(new Vec3<Real>[l.n - 1]), q3(new Vec3<Real>[l.n - 1]);
	for (int i = 0; i < l.n; i++) q[i] = l.p1[l.n - 1 - i];
	REQUIRE(SplineSolver3<Real>::naturalBezierSpline(l.n, l.p1.get(), l.p2.get(), l.p3.get()));
	REQUIRE(SplineSolver3<Real>::naturalBezierSpline(l.n, q.get(), q2.get(), q3.get()));
	LD tol = 16 * Num<Real>::u() * l.big;
	int m = l.n - 1;
	for (int i = 0; i < m; i++)
	{
		const auto& a = l.p2[i]; const auto& b = l.p3[i];
		NEAR3(q3[m - 1 - i], (v3<Real>(a.x, a.y, a.z, tol)));
		NEAR3(q2[m - 1 - i], (v3<Real>(b.x, b.y, b.z, tol)));
	}
	// the natural curve is the clamped one with its own end controls
	std::unique_ptr<Vec3<Real>[]> r2(new Vec3<Real>[m]), r3(new Vec3<Real>[m]);
	REQUIRE(SplineSolver3<Real>::bezierSpline(l.n, l.p1.get(), l.p2[0], l.p3[m - 1], r2.get(), r3.get()));
	for (int i = 0; i < m; i++)
	{
		const auto& a = l.p2[i]; const auto& b = l.p3[i];
		NEAR3(r2[i], (v3<Real>(a.x, a.y, a.z, tol)));
		NEAR3(r3[i], (v3<Real>(b.x, b.y, b.z, tol)));
	}
}

// at any size the splines are the same
LAW(scaled, 0.3)
{
	Lists<Real> l(c, 2, 0);
	Real k = pow2<Real>(c);
	SHOW(k);
	int n = l.n;
	std::unique_ptr<Vec3<Real>[]> q(new Vec3<Real>[n]), a(new Vec3<Real>[n]), b(new Vec3<Real>[n]);
	for (int i = 0; i < n; i++) q[i] = l.p1[i] * k;
	Vec3<Real> u = vec3<Real>(c, -4, 6), v = vec3<Real>(c, -4, 6);
	LD tol = 256 * Num<Real>::u() * (l.big + len(u.x, u.y, u.z) + len(v.x, v.y, v.z));
	for (int which = 0; which < 3; which++)
	{
		bool r = which == 0 ? SplineSolver3<Real>::naturalBezierSpline(n, l.p1.get(), l.p2.get(), l.p3.get())
			: which == 1 ? SplineSolver3<Real>::closedBezierSpline(n, l.p1.get(), l.p2.get(), l.p3.get())
			: SplineSolver3<Real>::bezierSpline(n, l.p1.get(), u, v, l.p2.get(), l.p3.get());
		bool s = which == 0 ? SplineSolver3<Real>::naturalBezierSpline(n, q.get(), a.get(), b.get())
			: which == 1 ? SplineSolver3<Real>::closedBezierSpline(n, q.get(), a.get(), b.get())
			: SplineSolver3<Real>::bezierSpline(n, q.get(), u * k, v * k, a.get(), b.get());
		REQUIRE(r); REQUIRE(s);
		for (int i = 0; i < n - (which != 1); i++)
		{
			NEAR3(a[i] / k, (v3<Real>(l.p2[i].x, l.p2[i].y, l.p2[i].z, tol)));
			NEAR3(b[i] / k, (v3<Real>(l.p3[i].x, l.p3[i].y, l.p3[i].z, tol)));
		}
	}
}
