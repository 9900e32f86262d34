// C01: vector arithmetic
#include "gen.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C01";
const char* pbt::RULE = "vectors drawn from exact grids, special values, axis-aligned and equal-component shapes, uniform and wide magnitudes, with "
	"scalars and coordinates; non-trivial: at least two operand components are non-zero and different";

template <class R> static bool nt(const Vec2<R>& u) { return u.x != u.y && (u.x != 0 || u.y != 0); }
template <class R> static bool nt(const Vec3<R>& u) { return !(u.x == u.y && u.y == u.z); }
template <class R> static bool nt(const Vec4<R>& u) { return !(u.x == u.y && u.y == u.z && u.z == u.w); }

template <class R> static Num<R> mn(R a, R b) { return Num<R>(a < b ? a : b); }
template <class R> static Num<R> mx(R a, R b) { return Num<R>(a > b ? a : b); }

LAW(vec2_arith, 1)
{
	Vec2<Real> u = vec2<Real>(c), v = vec2<Real>(c);
	if (c.oneIn(5)) { v = related(c, u, v); c.label("related operands"); }
	Real k = real<Real>(c), d = divisor<Real>(c);
	SHOWV(u); SHOWV(v); SHOW(k); SHOW(d);
	c.nontrivial(nt(u) && nt(v));
	const Vec2<Real> u0 = u, v0 = v;
	typedef Num<Real> N;
	V2<Real> ru(u), rv(v);
	NEAR2(u + v, ru + rv);
	NEAR2(u - v, ru - rv);
	SAME2(-u, Vec2<Real>(-u.x, -u.y));
	NEAR2(u * k, ru * N(k));
	NEAR2(u / d, V2<Real>(N(u.x) / N(d), N(u.y) / N(d)));
	NEAR(u * v, dot(ru, rv));
	NEAR2((Vec2<Real>::product(u, v)), V2<Real>(ru.x * rv.x, ru.y * rv.y));
	NEAR2((Vec2<Real>::min(u, v)), V2<Real>(mn(u.x, v.x), mn(u.y, v.y)));
	NEAR2((Vec2<Real>::max(u, v)), V2<Real>(mx(u.x, v.x), mx(u.y, v.y)));
	NEAR(u.lengthSqr(), dot(ru, ru));
	NEAR(u.length(), length(ru));
	NEAR2(u.moved(Coord::X, k), V2<Real>(ru.x + N(k), ru.y));
	NEAR2(u.moved(Coord::Y, k), V2<Real>(ru.x, ru.y + N(k)));
	SAME(u.isNull(), u.x == 0 && u.y == 0);
	SAME2(u, u0); SAME2(v, v0);       // operands untouched

	{ Vec2<Real> w = u; Vec2<Real>& r = (w += v); REQUIRE(&r == &w); NEAR2(w, ru + rv); SAME2(v, v0); }
	{ Vec2<Real> w = u; Vec2<Real>& r = (w -= v); REQUIRE(&r == &w); NEAR2(w, ru - rv); SAME2(v, v0); }
	{ Vec2<Real> w = u; Vec2<Real>& r = (w *= k); REQUIRE(&r == &w); NEAR2(w, ru * N(k)); }
	{ Vec2<Real> w = u; Vec2<Real>& r = (w /= d); REQUIRE(&r == &w); NEAR2(w, V2<Real>(N(u.x) / N(d), N(u.y) / N(d))); }
	{ Vec2<Real> w = u; w += w; NEAR2(w, ru + ru); }
	{ Vec2<Real> w = u; w -= w; SAME2(w, (Vec2<Real>(0, 0))); }
	{ Vec2<Real> w = u; w *= w.x; NEAR2(w, ru * ru.x); }
	{ Vec2<Real> w = u; w *= w.y; NEAR2(w, ru * ru.y); }
	if (u.x != 0) { Vec2<Real> w = u; w /= w.x; NEAR2(w, V2<Real>(ru.x / ru.x, ru.y / ru.x)); }
	if (u.y != 0) { Vec2<Real> w = u; w /= w.y; NEAR2(w, V2<Real>(ru.x / ru.y, ru.y / ru.y)); }
}

LAW(vec3_arith, 1)
{
	Vec3<Real> u = vec3<Real>(c), v = vec3<Real>(c);
	if (c.oneIn(5)) { v = related(c, u, v); c.label("related operands"); }
	Real k = real<Real>(c), d = divisor<Real>(c);
	SHOWV(u); SHOWV(v); SHOW(k); SHOW(d);
	c.nontrivial(nt(u) && nt(v));
	const Vec3<Real> u0 = u, v0 = v;
	typedef Num<Real> N;
	V3<Real> ru(u), rv(v);
	NEAR3(u + v, ru + rv);
	NEAR3(u - v, ru - rv);
	SAME3(-u, Vec3<Real>(-u.x, -u.y, -u.z));
	NEAR3(u * k, ru * N(k));
	V3<Real> q(ru.x / N(d), ru.y / N(d), ru.z / N(d));
	NEAR3(u / d, q);
	NEAR(u * v, dot(ru, rv));
	NEAR3((Vec3<Real>::product(u, v)), V3<Real>(ru.x * rv.x, ru.y * rv.y, ru.z * rv.z));
	NEAR3((Vec3<Real>::min(u, v)), V3<Real>(mn(u.x, v.x), mn(u.y, v.y), mn(u.z, v.z)));
	NEAR3((Vec3<Real>::max(u, v)), V3<Real>(mx(u.x, v.x), mx(u.y, v.y), mx(u.z, v.z)));
	NEAR(u.lengthSqr(), dot(ru, ru));
	NEAR(u.length(), length(ru));
	NEAR3(u.moved(Coord::X, k), V3<Real>(ru.x + N(k), ru.y, ru.z));
	NEAR3(u.moved(Coord::Y, k), V3<Real>(ru.x, ru.y + N(k), ru.z));
	NEAR3(u.moved(Coord::Z, k), V3<Real>(ru.x, ru.y, ru.z + N(k)));
	SAME(u.isNull(), u.x == 0 && u.y == 0 && u.z == 0);
	SAME3(u, u0); SAME3(v, v0);

	{ Vec3<Real> w = u; Vec3<Real>& r = (w += v); REQUIRE(&r == &w); NEAR3(w, ru + rv); SAME3(v, v0); }
	{ Vec3<Real> w = u; Vec3<Real>& r = (w -= v); REQUIRE(&r == &w); NEAR3(w, ru - rv); SAME3(v, v0); }
	{ Vec3<Real> w = u; Vec3<Real>& r = (w *= k); REQUIRE(&r == &w); NEAR3(w, ru * N(k)); }
	{ Vec3<Real> w = u; Vec3<Real>& r = (w /= d); REQUIRE(&r == &w); NEAR3(w, q); }
	{ Vec3<Real> w = u; w += w; NEAR3(w, ru + ru); }
	{ Vec3<Real> w = u; w -= w; SAME3(w, (Vec3<Real>(0, 0, 0))); }
	for (int i = 0; i < 3; i++)
	{
		Real f = i == 0 ? u.x : i == 1 ? u.y : u.z;
		{ Vec3<Real> w = u; w *= (i == 0 ? w.x : i == 1 ? w.y : w.z); NEAR3(w, ru * N(f)); }
		if (f != 0) { Vec3<Real> w = u; w /= (i == 0 ? w.x : i == 1 ? w.y : w.z); NEAR3(w, V3<Real>(ru.x / N(f), ru.y / N(f), ru.z / N(f))); }
	}
}

LAW(vec4_arith, 1)
{
	Vec4<Real> u = vec4<Real>(c), v = vec4<Real>(c);
	if (c.oneIn(5)) { v = related(c, u, v); c.label("related operands"); }
	Vec3<Real> t = vec3<Real>(c);
	Real k = real<Real>(c), d = divisor<Real>(c);
	SHOWV(u); SHOWV(v); SHOWV(t); SHOW(k); SHOW(d);
	c.nontrivial(nt(u) && nt(v));
	const Vec4<Real> u0 = u, v0 = v;
	typedef Num<Real> N;
	V4<Real> ru(u), rv(v);
	V4<Real> sum = ru + rv, dif(ru.x - rv.x, ru.y - rv.y, ru.z - rv.z, ru.w - rv.w);
	NEAR4(u + v, sum);
	NEAR4(u - v, dif);
	SAME4(-u, Vec4<Real>(-u.x, -u.y, -u.z, -u.w));
	NEAR4(u * k, ru * N(k));
	V4<Real> q(ru.x / N(d), ru.y / N(d), ru.z / N(d), ru.w / N(d));
	NEAR4(u / d, q);
	NEAR(u * v, dot(ru, rv));
	NEAR4((Vec4<Real>::product(u, v)), V4<Real>(ru.x * rv.x, ru.y * rv.y, ru.z * rv.z, ru.w * rv.w));
	NEAR4((Vec4<Real>::min(u, v)), V4<Real>(mn(u.x, v.x), mn(u.y, v.y), mn(u.z, v.z), mn(u.w, v.w)));
	NEAR4((Vec4<Real>::max(u, v)), V4<Real>(mx(u.x, v.x), mx(u.y, v.y), mx(u.z, v.z), mx(u.w, v.w)));
	NEAR(u.lengthSqr(), dot(ru, ru));
	NEAR(u.length(), nsqrt(dot(ru, ru)));
	NEAR4(u.moved(Coord::X, k), V4<Real>(ru.x + N(k), ru.y, ru.z, ru.w));
	NEAR4(u.moved(Coord::Y, k), V4<Real>(ru.x, ru.y + N(k), ru.z, ru.w));
	NEAR4(u.moved(Coord::Z, k), V4<Real>(ru.x, ru.y, ru.z + N(k), ru.w));
	NEAR4(u.moved(Coord::W, k), V4<Real>(ru.x, ru.y, ru.z, ru.w + N(k)));
	SAME(u.isNull(), u.x == 0 && u.y == 0 && u.z == 0 && u.w == 0);
	SAME3(u.toVec3(), Vec3<Real>(u.x, u.y, u.z));
	SAME4(u, u0); SAME4(v, v0);

	{ Vec4<Real> w = u; Vec4<Real>& r = (w += v); REQUIRE(&r == &w); NEAR4(w, sum); SAME4(v, v0); }
	{ Vec4<Real> w = u; Vec4<Real>& r = (w -= v); REQUIRE(&r == &w); NEAR4(w, dif); SAME4(v, v0); }
	{ Vec4<Real> w = u; Vec4<Real>& r = (w += t); REQUIRE(&r == &w); NEAR4(w, V4<Real>(ru.x + N(t.x), ru.y + N(t.y), ru.z + N(t.z), ru.w)); }
	{ Vec4<Real> w = u; Vec4<Real>& r = (w -= t); REQUIRE(&r == &w); NEAR4(w, V4<Real>(ru.x - N(t.x), ru.y - N(t.y), ru.z - N(t.z), ru.w)); }
	{ Vec4<Real> w = u; Vec4<Real>& r = (w *= k); REQUIRE(&r == &w); NEAR4(w, ru * N(k)); }
	{ Vec4<Real> w = u; Vec4<Real>& r = (w /= d); REQUIRE(&r == &w); NEAR4(w, q); }
	{ Vec4<Real> w = u; w += w; NEAR4(w, ru + ru); }
	{ Vec4<Real> w = u; w -= w; SAME4(w, (Vec4<Real>(0, 0, 0, 0))); }
	for (int i = 0; i < 4; i++)
	{
		Real f = u.data()[i];
		{ Vec4<Real> w = u; w *= w.data()[i]; NEAR4(w, ru * N(f)); }
		if (f != 0) { Vec4<Real> w = u; w /= w.data()[i]; NEAR4(w, V4<Real>(ru.x / N(f), ru.y / N(f), ru.z / N(f), ru.w / N(f))); }
	}
}

// construction, setting, access, conversion, casts, equality
LAW(vec2_access, 1)
{
	Real a = real<Real>(c, -20, 20), b = real<Real>(c, -20, 20), k = real<Real>(c);
	SHOW(a); SHOW(b); SHOW(k);
	c.nontrivial(a != b);
	Vec2<Real> u(a, b);
	REQUIRE(u.x == a && u.y == b);
	Vec2<Real> kk(k);
	REQUIRE(kk.x == k && kk.y == k);
	Vec2<Real> w(Real(0), Real(0));
	REQUIRE(&w.set(a, b) == &w); SAME2(w, u);
	Vec2<Real> w2(Real(7), Real(9));
	REQUIRE(&w2.set(u) == &w2); SAME2(w2, u);
	w2.set(w2); SAME2(w2, u);
	{ Vec2<Real> m = u; m.set(Coord::X, k); REQUIRE(m.x == k && m.y == b); }
	{ Vec2<Real> m = u; m.set(Coord::Y, k); REQUIRE(m.x == a && m.y == k); }
	{ Vec2<Real> m = u; m[Coord::X] = k; REQUIRE(m.x == k && m.y == b); }
	{ Vec2<Real> m = u; m[Coord::Y] = k; REQUIRE(m.x == a && m.y == k); }
	{ Vec2<Real> m = u; m.data()[0] = k; REQUIRE(m.x == k && m.y == b); }
	{ Vec2<Real> m = u; m.data()[1] = k; REQUIRE(m.x == a && m.y == k); }
	const Vec2<Real> cu = u;
	REQUIRE(cu[Coord::X] == a && cu[Coord::Y] == b);
	REQUIRE(cu.data()[0] == a && cu.data()[1] == b);
	SAME2(cu.copy(), u);
	Vec2<Real> as; as = u; SAME2(as, u);
	Vec2<float> cf = u.template cast<float>();
	REQUIRE(cf.x == float(a) && cf.y == float(b));
	Vec2<double> cd = u.template cast<double>();
	REQUIRE(cd.x == double(a) && cd.y == double(b));
	Vec3<Real> e = Vec3<Real>(a, b, k);
	SAME2((Vec2<Real>(e)), (Vec2<Real>(a, b)));
	SAME2((Vec2<Real>(e, Coord::X)), (Vec2<Real>(b, k)));
	SAME2((Vec2<Real>(e, Coord::Y)), (Vec2<Real>(a, k)));
	SAME2((Vec2<Real>(e, Coord::Z)), (Vec2<Real>(a, b)));
	// equality is component-wise
	Real p = c.flip() ? a : real<Real>(c), q = c.flip() ? b : real<Real>(c);
	Vec2<Real> o(p, q);
	SAME(u == o, a == p && b == q);
	SAME(u != o, !(a == p && b == q));
	SAME(o == u, a == p && b == q);
	SAME2(Vec2<Real>::Zero, (Vec2<Real>(0, 0)));
	SAME2(Vec2<Real>::OneX, (Vec2<Real>(1, 0)));
	SAME2(Vec2<Real>::OneY, (Vec2<Real>(0, 1)));
}

LAW(vec3_access, 1)
{
	Real a = real<Real>(c, -20, 20), b = real<Real>(c, -20, 20), d = real<Real>(c, -20, 20), k = real<Real>(c);
	SHOW(a); SHOW(b); SHOW(d); SHOW(k);
	c.nontrivial(a != b && b != d);
	typedef Vec3<Real> V;
	V u(a, b, d);
	REQUIRE(u.x == a && u.y == b && u.z == d);
	V kk(k);
	REQUIRE(kk.x == k && kk.y == k && kk.z == k);
	V w(0, 0, 0);
	REQUIRE(&w.set(a, b, d) == &w); SAME3(w, u);
	V w2(7, 8, 9);
	REQUIRE(&w2.set(u) == &w2); SAME3(w2, u);
	w2.set(w2); SAME3(w2, u);
	{ V m = u; m.set(Coord::X, k); SAME3(m, V(k, b, d)); }
	{ V m = u; m.set(Coord::Y, k); SAME3(m, V(a, k, d)); }
	{ V m = u; m.set(Coord::Z, k); SAME3(m, V(a, b, k)); }
	{ V m = u; m[Coord::X] = k; SAME3(m, V(k, b, d)); }
	{ V m = u; m[Coord::Y] = k; SAME3(m, V(a, k, d)); }
	{ V m = u; m[Coord::Z] = k; SAME3(m, V(a, b, k)); }
	{ V m = u; m.data()[0] = k; SAME3(m, V(k, b, d)); }
	{ V m = u; m.data()[1] = k; SAME3(m, V(a, k, d)); }
	{ V m = u; m.data()[2] = k; SAME3(m, V(a, b, k)); }
	const V cu = u;
	REQUIRE(cu[Coord::X] == a && cu[Coord::Y] == b && cu[Coord::Z] == d);
	REQUIRE(cu.data()[0] == a && cu.data()[1] == b && cu.data()[2] == d);
	SAME3(cu.copy(), u);
	V as; as = u; SAME3(as, u);
	Vec3<float> cf = u.template cast<float>();
	REQUIRE(cf.x == float(a) && cf.y == float(b) && cf.z == float(d));
	Vec3<double> cd = u.template cast<double>();
	REQUIRE(cd.x == double(a) && cd.y == double(b) && cd.z == double(d));
	// 2D <-> 3D
	Vec2<Real> f(a, b);
	SAME3(V(f), V(a, b, 0));
	SAME3(V(f, Coord::X), V(0, a, b));
	SAME3(V(f, Coord::Y), V(b, 0, a));
	SAME3(V(f, Coord::Z), V(a, b, 0));
	SAME2(u.toVec2(), (Vec2<Real>(a, b)));
	SAME2(u.toVec2(Coord::X), (Vec2<Real>(b, d)));
	SAME2(u.toVec2(Coord::Y), (Vec2<Real>(d, a)));
	SAME2(u.toVec2(Coord::Z), (Vec2<Real>(a, b)));
	Coord pl = coord3<Real>(c);
	SAME2(V(f, pl).toVec2(pl), f);
	Real p = c.flip() ? a : real<Real>(c), q = c.flip() ? b : real<Real>(c), r = c.flip() ? d : real<Real>(c);
	V o(p, q, r);
	bool eq = a == p && b == q && d == r;
	if (!eq && (a == p) + (b == q) + (d == r) == 2) c.label("differ in one component");
	SAME(u == o, eq); SAME(u != o, !eq); SAME(o == u, eq);
	SAME3(V::Zero, V(0, 0, 0));
	SAME3(V::OneX, V(1, 0, 0));
	SAME3(V::OneY, V(0, 1, 0));
	SAME3(V::OneZ, V(0, 0, 1));
}

LAW(vec4_access, 1)
{
	Real a = real<Real>(c, -20, 20), b = real<Real>(c, -20, 20), d = real<Real>(c, -20, 20), e = real<Real>(c, -20, 20), k = real<Real>(c);
	SHOW(a); SHOW(b); SHOW(d); SHOW(e); SHOW(k);
	c.nontrivial(a != b && b != d && d != e);
	typedef Vec4<Real> V;
	V u(a, b, d, e);
	REQUIRE(u.x == a && u.y == b && u.z == d && u.w == e);
	V kk(k);
	REQUIRE(kk.x == k && kk.y == k && kk.z == k && kk.w == k);
	SAME4(V(a, b, d), V(a, b, d, 1));                // a point by default
	Vec3<Real> t(a, b, d);
	SAME4(V(t), V(a, b, d, 1));
	SAME4(V(t, e), u);
	SAME3(V(t, e).toVec3(), t);
	V w(3, 4, 5, 6);
	REQUIRE(&w.set(a, b, d, e) == &w); SAME4(w, u);
	w = V(3, 4, 5, 6); w.set(a, b, d); SAME4(w, V(a, b, d, 0));
	w = V(3, 4, 5, 6); w.set(t); SAME4(w, V(a, b, d, 0));
	w = V(3, 4, 5, 6); REQUIRE(&w.set(t, e) == &w); SAME4(w, u);
	w = V(3, 4, 5, 6); REQUIRE(&w.set(u) == &w); SAME4(w, u);
	w.set(w); SAME4(w, u);
	{ V m = u; m.set(Coord::X, k); SAME4(m, V(k, b, d, e)); }
	{ V m = u; m.set(Coord::Y, k); SAME4(m, V(a, k, d, e)); }
	{ V m = u; m.set(Coord::Z, k); SAME4(m, V(a, b, k, e)); }
	{ V m = u; m.set(Coord::W, k); SAME4(m, V(a, b, d, k)); }
	{ V m = u; m.data()[0] = k; SAME4(m, V(k, b, d, e)); }
	{ V m = u; m.data()[1] = k; SAME4(m, V(a, k, d, e)); }
	{ V m = u; m.data()[2] = k; SAME4(m, V(a, b, k, e)); }
	{ V m = u; m.data()[3] = k; SAME4(m, V(a, b, d, k)); }
	const V cu = u;
	REQUIRE(cu.data()[0] == a && cu.data()[1] == b && cu.data()[2] == d && cu.data()[3] == e);
	SAME4(cu.copy(), u);
	V as; as = u; SAME4(as, u);
	Vec4<float> cf = u.template cast<float>();
	REQUIRE(cf.x == float(a) && cf.y == float(b) && cf.z == float(d) && cf.w == float(e));
	Vec4<double> cd = u.template cast<double>();
	REQUIRE(cd.x == double(a) && cd.y == double(b) && cd.z == double(d) && cd.w == double(e));
	Real p = c.flip() ? a : real<Real>(c), q = c.flip() ? b : real<Real>(c), r = c.flip() ? d : real<Real>(c), s = c.flip() ? e : real<Real>(c);
	V o(p, q, r, s);
	bool eq = a == p && b == q && d == r && e == s;
	if (!eq && (a == p) + (b == q) + (d == r) + (e == s) == 3) c.label("differ in one component");
	SAME(u == o, eq); SAME(u != o, !eq); SAME(o == u, eq);
	SAME4(V::Zero, V(0, 0, 0, 0));
	SAME4(V::OneX, V(1, 0, 0, 1));
	SAME4(V::OneY, V(0, 1, 0, 1));
	SAME4(V::OneZ, V(0, 0, 1, 1));
	SAME4(V::OneW, V(0, 0, 0, 1));
	SAME4(V::OneXnw, V(1, 0, 0, 0));
	SAME4(V::OneYnw, V(0, 1, 0, 0));
	SAME4(V::OneZnw, V(0, 0, 1, 0));
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	switch (c.draw(3))
	{
	case 0: { Vec2<Real> a, b; equality<Real>(c, a, b, { &a.x, &a.y }, { &b.x, &b.y }); break; }
	case 1: { Vec3<Real> a, b; equality<Real>(c, a, b, { &a.x, &a.y, &a.z }, { &b.x, &b.y, &b.z }); break; }
	default: { Vec4<Real> a, b; equality<Real>(c, a, b, { &a.x, &a.y, &a.z, &a.w }, { &b.x, &b.y, &b.z, &b.w }); break; }
	}
}
