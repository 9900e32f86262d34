// C03: rotation, mirroring, normalisation, polar form, major/minor coordinate
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C03";
const char* pbt::RULE = "vectors of every shape and magnitude with angles (multiples of 15 and 45 degrees, tiny, many turns), axes and target lengths; "
	"non-trivial: the vector is non-zero and the angle is not a multiple of a full turn";

template <class R> static V2<R> rot2(V2<R> v, Num<R> a)
{
	Num<R> s = nsin(a), co = ncos(a);
	return V2<R>(v.x * co - v.y * s, v.x * s + v.y * co);
}

template <class R> static V3<R> rot3(V3<R> v, int axis, Num<R> a)
{
	V2<R> t;
	switch (axis)
	{
	case 0: t = rot2(V2<R>(v.y, v.z), a); return V3<R>(v.x, t.x, t.y);
	case 1: t = rot2(V2<R>(v.z, v.x), a); return V3<R>(t.y, v.y, t.x);
	default: t = rot2(V2<R>(v.x, v.y), a); return V3<R>(t.x, t.y, v.z);
	}
}

LAW(rotate2, 1)
{
	typedef Vec2<Real> V;
	V u = vec2<Real>(c);
	Real a = angle<Real>(c), b = angle<Real>(c);
	SHOWV(u); SHOW(a); SHOW(b);
	c.nontrivial((u.x != 0 || u.y != 0) && fabsl(sinl(LD(a) / 2)) > 1e-6L);
	V2<Real> r = rot2(V2<Real>(u), Num<Real>(a));
	NEAR2(u.rotated(a), r);
	V m = u;
	REQUIRE(&m.rotate(a) == &m);
	NEAR2(m, r);
	// additive composition
	m.rotate(b);
	V2<Real> rb = rot2(r, Num<Real>(b));
	NEAR2(m, rb);
	NEAR2(u.rotated(a).rotated(b), rb);
	// length preserved
	LD l = len(u.x, u.y);
	REQUIREM(fabsl(len(u.rotated(a).x, u.rotated(a).y) - l) <= l * Num<Real>::u() * 32, "length not preserved");
	// and undone by the opposite rotation
	NEAR2(u.rotated(a).rotated(-a), rot2(r, Num<Real>(-a)));
	SAME2(u.rotated90(), V(-u.y, u.x));
	SAME2(u.rotated180(), V(-u.x, -u.y));
	SAME2(u.rotated270(), V(u.y, -u.x));
	{ V w = u; REQUIRE(&w.rotate90() == &w); SAME2(w, V(-u.y, u.x)); }
	{ V w = u; REQUIRE(&w.rotate180() == &w); SAME2(w, V(-u.x, -u.y)); }
	{ V w = u; REQUIRE(&w.rotate270() == &w); SAME2(w, V(u.y, -u.x)); }
	{ V w = u; w.mirror(Coord::X); SAME2(w, V(-u.x, u.y)); SAME2(u.mirrored(Coord::X), w); w.mirror(Coord::X); SAME2(w, u); }
	{ V w = u; w.mirror(Coord::Y); SAME2(w, V(u.x, -u.y)); SAME2(u.mirrored(Coord::Y), w); w.mirror(Coord::Y); SAME2(w, u); }
}

LAW(rotate3, 1)
{
	typedef Vec3<Real> V;
	V u = vec3<Real>(c);
	Real a = angle<Real>(c), b = angle<Real>(c);
	int ax = int(c.draw(3));
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	SHOWV(u); SHOW(a); SHOW(b); SHOW(ax);
	c.nontrivial((u.x != 0 || u.y != 0 || u.z != 0) && fabsl(sinl(LD(a) / 2)) > 1e-6L);
	V3<Real> r = rot3(V3<Real>(u), ax, Num<Real>(a));
	NEAR3(u.rotated(cs[ax], a), r);
	V m = u;
	REQUIRE(&m.rotate(cs[ax], a) == &m);
	NEAR3(m, r);
	m.rotate(cs[ax], b);
	NEAR3(m, rot3(r, ax, Num<Real>(b)));
	LD l = len(u.x, u.y, u.z);
	V w = u.rotated(cs[ax], a);
	REQUIREM(fabsl(len(w.x, w.y, w.z) - l) <= l * Num<Real>::u() * 32, "length not preserved");
	for (int i = 0; i < 3; i++)
	{
		V e(i == 0 ? -u.x : u.x, i == 1 ? -u.y : u.y, i == 2 ? -u.z : u.z);
		SAME3(u.mirrored(cs[i]), e);
		V t = u; REQUIRE(&t.mirror(cs[i]) == &t); SAME3(t, e);
		t.mirror(cs[i]); SAME3(t, u);
	}
}

LAW(normalize2, 1)
{
	typedef Vec2<Real> V;
	V u = c.oneIn(12) ? V(0, 0) : vec2<Real>(c);
	Real k = c.flip() ? Real(1) : (c.oneIn(4) ? real<Real>(c, -6, 6) : positive<Real>(c));
	SHOWV(u); SHOW(k);
	const bool zero = u.x == 0 && u.y == 0;
	if (zero) c.label("zero vector");
	c.nontrivial(!zero);
	V2<Real> r(u);
	Num<Real> l = length(r);
	V2<Real> e = zero ? V2<Real>(Num<Real>(0), Num<Real>(0)) : V2<Real>(r.x * Num<Real>(k) / l, r.y * Num<Real>(k) / l);
	{ V m = u; Real got = m.normalize(k); NEAR(got, l); NEAR2(m, e); }
	NEAR2(u.normalized(k), e);
	V2<Real> e1 = zero ? e : V2<Real>(r.x / l, r.y / l);
	{ V m = u; Real got = m.normalize(); NEAR(got, l); NEAR2(m, e1); }
	NEAR2(u.normalized(), e1);
}

LAW(normalize3, 1)
{
	typedef Vec3<Real> V;
	V u = c.oneIn(12) ? V(0, 0, 0) : vec3<Real>(c);
	Real k = c.flip() ? Real(1) : (c.oneIn(4) ? real<Real>(c, -6, 6) : positive<Real>(c));
	SHOWV(u); SHOW(k);
	const bool zero = u.x == 0 && u.y == 0 && u.z == 0;
	if (zero) c.label("zero vector");
	c.nontrivial(!zero);
	V3<Real> r(u);
	Num<Real> l = length(r);
	V3<Real> e = zero ? V3<Real>(0, 0, 0) : V3<Real>(r.x * Num<Real>(k) / l, r.y * Num<Real>(k) / l, r.z * Num<Real>(k) / l);
	{ V m = u; Real got = m.normalize(k); NEAR(got, l); NEAR3(m, e); }
	NEAR3(u.normalized(k), e);
	V3<Real> e1 = zero ? e : V3<Real>(r.x / l, r.y / l, r.z / l);
	{ V m = u; Real got = m.normalize(); NEAR(got, l); NEAR3(m, e1); }
	NEAR3(u.normalized(), e1);
}

LAW(polar, 1)
{
	typedef Vec2<Real> V;
	Real a = angle<Real>(c), l = c.oneIn(6) ? Real(1) : real<Real>(c, -6, 6);
	SHOW(a); SHOW(l);
	c.nontrivial(l > 0 && a != 0);
	Num<Real> L(l), A(a);
	V2<Real> e(L * ncos(A), L * nsin(A));
	V u = V::fromAngle(a, l);
	NEAR2(u, e);
	NEAR2(V::fromAngle(a), V2<Real>(ncos(A), nsin(A)));
	V w(Real(5), Real(6));
	REQUIRE(&w.setAngle(a, l) == &w); NEAR2(w, e);
	w.setAngle(a); NEAR2(w, V2<Real>(ncos(A), nsin(A)));
	if (l > 0)
	{
		// angle is recovered modulo a full turn, within [-pi, pi]
		LD got = u.angle();
		LD d = remainderl(got - LD(a), 2 * PIL);
		LD tol = 64 * Num<Real>::u() * (1 + fabsl(LD(a)));
		REQUIREM(fabsl(d) <= tol, std::string("angle() gave ") + pbt::str(got));
		REQUIRE(fabsl(got) <= PIL + tol);
	}
	V v = vec2<Real>(c);
	SHOWV(v);
	if (v.x != 0 || v.y != 0)
	{
		LD ref = atan2l(v.y, v.x), got = v.angle();
		REQUIREM(fabsl(remainderl(got - ref, 2 * PIL)) <= 16 * Num<Real>::u() * PIL, std::string("angle() gave ") + pbt::str(got));
		V back = V::fromAngle(v.angle(), v.length());
		LD s = len(v.x, v.y) * 64 * Num<Real>::u();
		REQUIREM(fabsl(LD(back.x) - v.x) <= s && fabsl(LD(back.y) - v.y) <= s, "angle and length do not rebuild the vector");
	}
}

LAW(major_minor, 1)
{
	Vec2<Real> u = vec2<Real>(c);
	Vec3<Real> v = vec3<Real>(c);
	SHOWV(u); SHOWV(v);
	auto ab = [](Real x) { return x < 0 ? -x : x; };
	{
		Coord mj = u.majorCoord(), mi = u.minorCoord();
		REQUIRE(mj == Coord::X || mj == Coord::Y);
		REQUIRE(mi == Coord::X || mi == Coord::Y);
		Real a = ab(u.x), b = ab(u.y), hi = a > b ? a : b, lo = a < b ? a : b;
		REQUIRE((mj == Coord::X ? a : b) == hi);
		REQUIRE((mi == Coord::X ? a : b) == lo);
	}
	Real f[3] = {ab(v.x), ab(v.y), ab(v.z)};
	c.nontrivial(f[0] != f[1] && f[1] != f[2] && f[0] != f[2]);
	Real hi = f[0], lo = f[0];
	for (int i = 1; i < 3; i++) { if (f[i] > hi) hi = f[i]; if (f[i] < lo) lo = f[i]; }
	Coord mj = v.majorCoord(), mi = v.minorCoord();
	REQUIRE(unsigned(mj) <= 2);
	REQUIRE(unsigned(mi) <= 2);
	REQUIREM(f[unsigned(mj)] == hi, "major coordinate is not a largest one");
	REQUIREM(f[unsigned(mi)] == lo, "minor coordinate is not a smallest one");
}
