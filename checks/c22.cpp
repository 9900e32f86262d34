// C22: triangles in the plane
#include "gen.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C22";
const char* pbt::RULE = "triangles of either winding and without area, any size, position and elongation; points at corners, on edges and their extensions, just inside and outside each edge, inside and anywhere; on small grids exactly, elsewhere with a margin; "
	"non-trivial: the point is within the triangle's bounding box, or on the line of an edge";

template <class R> static LD area(const Vec2<R>& a, const Vec2<R>& b, const Vec2<R>& p)
{
	return (LD(b.x) - a.x) * (LD(p.y) - a.y) - (LD(b.y) - a.y) * (LD(p.x) - a.x);
}
template <class R> static bool inBox(const Vec2<R>* q, const Vec2<R>& p)
{
	R lx = std::min({q[0].x, q[1].x, q[2].x}), hx = std::max({q[0].x, q[1].x, q[2].x});
	R ly = std::min({q[0].y, q[1].y, q[2].y}), hy = std::max({q[0].y, q[1].y, q[2].y});
	return p.x >= lx && p.x <= hx && p.y >= ly && p.y <= hy;
}
// all orders of the corners; the answer must not depend on it
template <class R> static void ask(Case& c, const Vec2<R>* q, const Vec2<R>& p, bool want)
{
	static const int o[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {1, 0, 2}, {0, 2, 1}};
	for (auto& k : o)
	{
		Tri2<R> t = Tri2<R>::from(q[k[0]], q[k[1]], q[k[2]]);
		c.nCompared++;
		if (t.contains(p) != want) pbt::failWith("contains" + s(p) + " of " + s(t.a) + s(t.b) + s(t.c) + " is not " + (want ? "true" : "false"));
	}
}

LAW(exact, 1)
{
	typedef Vec2<Real> V;
	V q[3];
	int n = c.flip() ? 3 : 12;
	for (auto& v : q) { v.x = grid<Real>(c, n); v.y = grid<Real>(c, n); }
	LD A = area(q[0], q[1], q[2]);
	if (A == 0) pbt::discard();
	V p;
	switch (c.draw(4))
	{
	case 0: p = q[c.draw(3)]; break;
	case 1:
	{
		// on the line of an edge: a lattice point of it, within or beyond the ends
		int i = int(c.draw(3));
		V a = q[i], b = q[(i + 1) % 3];
		int dx = int(b.x - a.x), dy = int(b.y - a.y), g = std::abs(dx), h = std::abs(dy);
		while (h) { int r = g % h; g = h; h = r; }
		int k = c.range(-g - 2, 2 * g + 2);
		p = V(a.x + Real(dx / g * k), a.y + Real(dy / g * k));
		c.label("edge line");
		break;
	}
	default: p.x = grid<Real>(c, n + 2); p.y = grid<Real>(c, n + 2);
	}
	SHOWV(q[0]); SHOWV(q[1]); SHOWV(q[2]); SHOWV(p);
	LD sgn = A > 0 ? 1 : -1;
	LD e0 = sgn * area(q[0], q[1], p), e1 = sgn * area(q[1], q[2], p), e2 = sgn * area(q[2], q[0], p);
	bool in = e0 >= 0 && e1 >= 0 && e2 >= 0;
	c.nontrivial(inBox(q, p) || e0 == 0 || e1 == 0 || e2 == 0);
	if (in) c.label("inside"); else c.label("outside");
	ask<Real>(c, q, p, in);
	// moved by whole amounts, and scaled by powers of two, nothing changes
	V m(grid<Real>(c, 30), grid<Real>(c, 30));
	int sc = c.range(-10, 10);
	V w[3];
	for (int i = 0; i < 3; i++) w[i] = V(std::ldexp(q[i].x + m.x, sc), std::ldexp(q[i].y + m.y, sc));
	ask<Real>(c, w, V(std::ldexp(p.x + m.x, sc), std::ldexp(p.y + m.y, sc)), in);
}

// no area: a segment or a point
LAW(flat, 0.5)
{
	typedef Vec2<Real> V;
	int n = 4;
	V o(grid<Real>(c, n), grid<Real>(c, n)), d(grid<Real>(c, 3), grid<Real>(c, 3));
	int k[3], lo = 100, hi = -100;
	V q[3];
	for (int i = 0; i < 3; i++)
	{
		k[i] = c.range(-3, 3);
		q[i] = V(o.x + d.x * Real(k[i]), o.y + d.y * Real(k[i]));
		lo = std::min(lo, k[i]); hi = std::max(hi, k[i]);
	}
	V p;
	bool want;
	if (c.draw(3))
	{
		int h = c.range(-10, 10);      // in halves
		p = V(o.x + d.x * Real(h) / Real(2), o.y + d.y * Real(h) / Real(2));
		want = (d.x == 0 && d.y == 0) || (h >= 2 * lo && h <= 2 * hi);
		c.label("on the carrier");
	}
	else
	{
		p = V(grid<Real>(c, n + 8), grid<Real>(c, n + 8));
		LD dx = LD(p.x) - o.x, dy = LD(p.y) - o.y, along = dx * d.x + dy * d.y, l2 = LD(d.x) * d.x + LD(d.y) * d.y;
		want = l2 == 0 ? dx == 0 && dy == 0 : dx * d.y - dy * d.x == 0 && along >= lo * l2 && along <= hi * l2;
	}
	SHOWV(q[0]); SHOWV(q[1]); SHOWV(q[2]); SHOWV(p);
	c.nontrivial(lo < hi && (d.x != 0 || d.y != 0));
	if (lo == hi || (d.x == 0 && d.y == 0)) c.label("a point");
	ask<Real>(c, q, p, want);
}

LAW(general, 1)
{
	typedef Vec2<Real> V;
	const LD u = Num<Real>::u();
	V q[3];
	for (auto& v : q) v = vec2<Real>(c);
	if (c.draw(4) == 3)
	{
		// a small one far out, or an elongated one
		Real k = mag<Real>(c, -6, 0);
		for (int i = 1; i < 3; i++) q[i] = V(q[0].x + q[i].x * k, q[0].y + q[i].y * (c.flip() ? k : Real(1)));
	}
	LD A = area(q[0], q[1], q[2]);
	SHOWV(q[0]); SHOWV(q[1]); SHOWV(q[2]);
	V p;
	switch (c.draw(3))
	{
	case 0: p = vec2<Real>(c); break;
	case 1:
	{
		// beside an edge
		int i = int(c.draw(3));
		V a = q[i], b = q[(i + 1) % 3];
		LD t = between<Real>(c, Real(-0.3), Real(1.3)), k = LD(mag<Real>(c, -16, 0)) * (c.flip() ? -1 : 1);
		LD dx = LD(b.x) - a.x, dy = LD(b.y) - a.y;
		p = V(Real(a.x + dx * t - dy * k), Real(a.y + dy * t + dx * k));
		c.label("near edge");
		break;
	}
	default:
	{
		LD x = unit01<Real>(c), y = unit01<Real>(c);
		if (x + y > 1) { x = 1 - x; y = 1 - y; }
		p = V(Real(q[0].x + (LD(q[1].x) - q[0].x) * x + (LD(q[2].x) - q[0].x) * y), Real(q[0].y + (LD(q[1].y) - q[0].y) * x + (LD(q[2].y) - q[0].y) * y));
		c.label("convex");
	}
	}
	SHOWV(p);
	LD sgn = A > 0 ? 1 : -1;
	bool in = true, sure = true, out = false;
	for (int i = 0; i < 3; i++)
	{
		V a = q[i], b = q[(i + 1) % 3];
		LD m = sgn * area(a, b, p);
		// each product of coordinate differences, however it is arranged
		LD X = fabsl(a.x) + fabsl(b.x) + fabsl(p.x), Y = fabsl(a.y) + fabsl(b.y) + fabsl(p.y);
		LD tol = 16 * u * X * Y + 1e-30L;
		if (m < -tol) { in = false; out = true; }
		else if (m < tol) { in = false; sure = false; }
	}
	{
		LD X = fabsl(q[0].x) + fabsl(q[1].x) + fabsl(q[2].x), Y = fabsl(q[0].y) + fabsl(q[1].y) + fabsl(q[2].y);
		if (!(fabsl(A) > 64 * u * X * Y)) pbt::discard();
	}
	c.nontrivial(inBox(q, p));
	if (out) { ask<Real>(c, q, p, false); c.label("outside"); }
	else if (sure && in) { ask<Real>(c, q, p, true); c.label("inside"); }
	else c.skipped();
}

LAW(values, 0.3)
{
	typedef Vec2<Real> V; typedef Tri2<Real> T;
	V q[3];
	for (auto& v : q) v = vec2<Real>(c);
	SHOWV(q[0]); SHOWV(q[1]); SHOWV(q[2]);
	T t = T::from(q[0], q[1], q[2]);
	SAME2(t.a, q[0]); SAME2(t.b, q[1]); SAME2(t.c, q[2]);
	T o = T::from(q[0], q[1], q[2]);
	REQUIRE(t == o); REQUIRE(!(t != o));
	int k = int(c.draw(6));
	V& v = k < 2 ? o.a : k < 4 ? o.b : o.c;
	Real& x = k & 1 ? v.y : v.x;
	x = x == 0 ? Real(1) : x * Real(1.5);
	c.nontrivial();
	REQUIRE(!(t == o)); REQUIRE(t != o);
	auto f = t.template cast<float>();
	auto d = t.template cast<double>();
	static_assert(std::is_same<decltype(f), Tri2<float>>::value && std::is_same<decltype(d), Tri2<double>>::value, "cast types");
	SAME2(f.a, q[0].template cast<float>()); SAME2(f.b, q[1].template cast<float>()); SAME2(f.c, q[2].template cast<float>());
	SAME2(d.a, q[0].template cast<double>()); SAME2(d.b, q[1].template cast<double>()); SAME2(d.c, q[2].template cast<double>());
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	Tri2<Real> a, b; equality<Real>(c, a, b, { &a.a.x, &a.a.y, &a.b.x, &a.b.y, &a.c.x, &a.c.y }, { &b.a.x, &b.a.y, &b.b.x, &b.b.y, &b.c.x, &b.c.y });
}
