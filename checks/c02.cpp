// C02: cross products and 2D segment intersection
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C02";
const char* pbt::RULE = "pairs and triples of vectors (general, axis-aligned, exactly parallel, grid) and pairs of 2D segments (crossing, touching, "
	"parallel, collinear, degenerate); non-trivial: the cross product or determinant involved is non-zero, or the case is exactly parallel with non-zero operands";

LAW(cross3, 1)
{
	typedef Vec3<Real> V;
	V u = vec3<Real>(c), v;
	bool par = c.oneIn(5);
	if (par) { int k = c.range(-4, 4); v = V(u.x * k, u.y * k, u.z * k); c.label("exactly parallel"); }
	else if (c.oneIn(5)) { Real k = nonzero<Real>(c); v = V(nearly(c, u.x, k), nearly(c, u.y, k), nearly(c, u.z, k)); c.label("nearly parallel"); }
	else v = vec3<Real>(c);
	SHOWV(u); SHOWV(v);
	const V u0 = u, v0 = v;
	V3<Real> r = cross(V3<Real>(u), V3<Real>(v));
	c.nontrivial(par ? u.x != 0 || u.y != 0 || u.z != 0 : r.x.v != 0 || r.y.v != 0 || r.z.v != 0);
	V w = u % v;
	NEAR3(w, r);
	NEAR3(v % u, V3<Real>(-r.x, -r.y, -r.z));
	SAME3(u, u0); SAME3(v, v0);
	// orthogonality, on the actual result
	Num<Real> scale = nsqrt(dot(V3<Real>(u), V3<Real>(u))) * nsqrt(dot(V3<Real>(v), V3<Real>(v)));
	LD eps = Num<Real>::u() * 32;
	REQUIREM(fabsl(LD(w.x) * u.x + LD(w.y) * u.y + LD(w.z) * u.z) <= eps * scale.v * len(u.x, u.y, u.z) + 1e-30L, "not orthogonal to the left operand");
	REQUIREM(fabsl(LD(w.x) * v.x + LD(w.y) * v.y + LD(w.z) * v.z) <= eps * scale.v * len(v.x, v.y, v.z) + 1e-30L, "not orthogonal to the right operand");
	{ V m = u; V& q = (m %= v); REQUIRE(&q == &m); NEAR3(m, r); SAME3(v, v0); }
	{ V m = u; m %= m; REQUIREM(fabsl(m.x) <= eps * len(u.x, u.y, u.z) * len(u.x, u.y, u.z) && fabsl(m.y) <= eps * len(u.x, u.y, u.z) * len(u.x, u.y, u.z) && fabsl(m.z) <= eps * len(u.x, u.y, u.z) * len(u.x, u.y, u.z), "u %= u is not zero"); }
	{ V m = v; m %= u; NEAR3(m, V3<Real>(-r.x, -r.y, -r.z)); }
}

LAW(cross_axis, 1)
{
	typedef Vec3<Real> V;
	V u = vec3<Real>(c);
	SHOWV(u);
	c.nontrivial(u.x != u.y && u.y != u.z);
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	static const Axis as[6] = {Axis::X, Axis::Y, Axis::Z, Axis::NX, Axis::NY, Axis::NZ};
	for (int i = 0; i < 6; i++)
	{
		V e(0, 0, 0);
		Real sgn = i < 3 ? Real(1) : Real(-1);
		if (i % 3 == 0) e.x = sgn; else if (i % 3 == 1) e.y = sgn; else e.z = sgn;
		V3<Real> r = cross(V3<Real>(u), V3<Real>(e));
		if (i < 3)
		{
			NEAR3(u % cs[i], r);
			V m = u; V& q = (m %= cs[i]); REQUIRE(&q == &m); NEAR3(m, r);
		}
		NEAR3(u % as[i], r);
		V m = u; V& q = (m %= as[i]); REQUIRE(&q == &m); NEAR3(m, r);
	}
	SAME3(V::OneX % V::OneY, V::OneZ);
	SAME3(V::OneY % V::OneZ, V::OneX);
	SAME3(V::OneZ % V::OneX, V::OneY);
}

LAW(cross2, 1)
{
	typedef Vec2<Real> V;
	V a = vec2<Real>(c), b = vec2<Real>(c), d = vec2<Real>(c);
	if (c.oneIn(5)) { Real k = nonzero<Real>(c); b = V(nearly(c, a.x, k), nearly(c, a.y, k)); if (c.flip()) { k = nonzero<Real>(c); d = V(nearly(c, a.x, k), nearly(c, a.y, k)); } c.label("nearly parallel"); }
	SHOWV(a); SHOWV(b); SHOWV(d);
	V2<Real> ra(a), rb(b), rd(d);
	Num<Real> k = cross(ra, rb);
	c.nontrivial(k.v != 0);
	NEAR(a % b, k);
	NEAR(b % a, -k);
	Num<Real> t = cross(rb - ra, rd - ra);
	NEAR((V::crossProduct(a, b, d)), t);
	NEAR((V::crossProduct(b, d, a)), cross(rd - rb, ra - rb));
	NEAR((V::crossProduct(a, d, b)), -t);
	// signed doubled area from the shoelace formula
	Num<Real> sh = cross(ra, rb) + cross(rb, rd) + cross(rd, ra);
	NEAR((V::crossProduct(a, b, d)), Num<Real>(sh.v, sh.e + t.e));
}

LAW(intersection2, 2)
{
	typedef Vec2<Real> V;
	V from, to, a, b;
	bool exactParallel = false;
	switch (c.draw(4))
	{
	case 0: // exact grid: the determinant is exact
		from = V(grid<Real>(c), grid<Real>(c)); to = V(grid<Real>(c), grid<Real>(c));
		a = V(grid<Real>(c), grid<Real>(c)); b = V(grid<Real>(c), grid<Real>(c));
		exactParallel = (to.x - from.x) * (b.y - a.y) == (to.y - from.y) * (b.x - a.x);
		c.label("grid");
		break;
	case 1: // parallel by construction on a grid
	{
		from = V(grid<Real>(c), grid<Real>(c)); a = V(grid<Real>(c), grid<Real>(c));
		V d(grid<Real>(c), grid<Real>(c));
		int k = c.range(-3, 3), l = c.range(-3, 3);
		to = V(from.x + d.x * k, from.y + d.y * k);
		b = V(a.x + d.x * l, a.y + d.y * l);
		exactParallel = true;
		c.label("parallel");
		break;
	}
	default:
		from = vec2<Real>(c, -6, 6); to = vec2<Real>(c, -6, 6); a = vec2<Real>(c, -6, 6); b = vec2<Real>(c, -6, 6);
	}
	SHOWV(from); SHOWV(to); SHOWV(a); SHOWV(b);
	Real p = Real(77), q = Real(88);
	int r = intersection(from, to, a, b, p, q);
	typedef V2<Real> R2;
	R2 ft = R2(to) - R2(from), ab = R2(b) - R2(a), fa = R2(a) - R2(from);
	Num<Real> det = cross(ft, ab);
	if (exactParallel)
	{
		REQUIREM(r == 0, "parallel segments reported as intersecting");
		REQUIRE(p == 0 && q == 0);
		c.nontrivial(from.x != to.x || from.y != to.y);
		return;
	}
	if (fabsl(det.v) <= 8 * det.e) { c.label("nearly parallel"); return; }
	c.nontrivial();
	REQUIREM(r != 0, "crossing lines reported as parallel");
	NEAR(p, cross(fa, ab) / det);
	NEAR(q, cross(fa, ft) / det);
	// both parameters give the same point, computed from the actual results
	Num<Real> P(LD(p), Num<Real>((cross(fa, ab) / det)).e * 16), Q(LD(q), Num<Real>((cross(fa, ft) / det)).e * 16);
	Num<Real> dx = (Num<Real>(from.x) + ft.x * P) - (Num<Real>(a.x) + ab.x * Q);
	Num<Real> dy = (Num<Real>(from.y) + ft.y * P) - (Num<Real>(a.y) + ab.y * Q);
	if (!dx.bad() && !dy.bad())
		REQUIREM(fabsl(dx.v) <= 4 * dx.e + 1e-30L && fabsl(dy.v) <= 4 * dy.e + 1e-30L, "the two parameters denote different points");
}

// at any size the answers are the same
LAW(scaled, 0.5)
{
	typedef Vec2<Real> V;
	V a = vec2<Real>(c, -6, 6), b = vec2<Real>(c, -6, 6), d = vec2<Real>(c, -6, 6), e = vec2<Real>(c, -6, 6);
	Real k = sizeof(Real) == 4 ? Real(std::ldexp(1.0, c.range(-12, 12))) : pow2<Real>(c), p = 0, q = 0, kp = 0, kq = 0;
	for (V* v : {&a, &b, &d, &e}) for (Real* x : {&v->x, &v->y}) if (std::abs(*x) > Real(1000) || (*x != 0 && std::abs(*x) < Real(0.001))) pbt::discard();
	SHOWV(a); SHOWV(b); SHOWV(d); SHOWV(e); SHOW(k);
	int r = intersection(a, b, d, e, p, q), kr = intersection(V(a.x * k, a.y * k), V(b.x * k, b.y * k), V(d.x * k, d.y * k), V(e.x * k, e.y * k), kp, kq);
	REQUIRE((r != 0) == (kr != 0));
	if (r) { CLOSE(kp, p, 64 * Num<Real>::u() * fabsl(p)); CLOSE(kq, q, 64 * Num<Real>::u() * fabsl(q)); }
	c.nontrivial(r && k != 1);
}
