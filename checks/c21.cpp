// C21: lines and rays in two and three dimensions
#include "boxes.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C21";
const char* pbt::RULE = "lines and rays of any direction, length and position (null ones included), parameters inside and far outside the line, points on the carrier, near it, far along it, beside and behind the start; "
	"non-trivial: the direction is not along an axis and the start is not the origin";

template <class T> static LD ref(const typename T::V& v) { LD r = 0; for (int i = 0; i < T::D; i++) r += LD(T::get(v, i)) * T::get(v, i); return sqrtl(r); }
// a length is the root of squares: below this they are lost
template <class Real> static LD faintest() { return 8 * sqrtl(std::numeric_limits<Real>::denorm_min()); }
template <class T> static bool oblique(const typename T::V& d) { int n = 0; for (int i = 0; i < T::D; i++) n += T::get(d, i) != 0; return n > 1; }
template <class T> static typename T::V nonzeroV(Case& c)
{
	typename T::V v = T::vec(c);
	if (ref<T>(v) == 0) T::at(v, int(c.draw(T::D))) = 1;
	return v;
}
// distance from p to the carrier through s along d (d != 0), and how far along
template <class T> static LD carrier(const typename T::V& s, const LD* d, const typename T::V& p, LD& along)
{
	LD dd = 0, t = 0;
	for (int i = 0; i < T::D; i++) { dd += d[i] * d[i]; t += d[i] * (LD(T::get(p, i)) - T::get(s, i)); }
	t /= dd;
	LD r = 0;
	for (int i = 0; i < T::D; i++) { LD q = LD(T::get(p, i)) - T::get(s, i) - d[i] * t; r += q * q; }
	along = t * sqrtl(dd);
	return sqrtl(r);
}
template <class T> static LD apart(const typename T::V& a, const typename T::V& b)
{
	LD r = 0;
	for (int i = 0; i < T::D; i++) { LD q = LD(T::get(a, i)) - T::get(b, i); r += q * q; }
	return sqrtl(r);
}
// a point on the carrier, close to it, or anywhere
template <class T> static typename T::V anyNear(Case& c, const typename T::V& s, const typename T::V& d)
{
	typedef typename T::Real R;
	if (c.draw(4) == 0) return T::vec(c);
	typename T::V p = T::zero();
	R t = real<R>(c, -8, 10);
	for (int i = 0; i < T::D; i++) T::at(p, i) = T::get(s, i) + T::get(d, i) * t;
	switch (c.draw(3))
	{
	case 0: return p;
	case 1: { R k = mag<R>(c, -12, 2); typename T::V n = T::unit(c); for (int i = 0; i < T::D; i++) T::at(p, i) += T::get(n, i) * k; return p; }
	default:
	{
		// straight to the side
		typename T::V n = T::unit(c);
		LD dd = 0, dn = 0;
		for (int i = 0; i < T::D; i++) { dd += LD(T::get(d, i)) * T::get(d, i); dn += LD(T::get(d, i)) * T::get(n, i); }
		R k = mag<R>(c, -6, 6);
		if (dd > 0) for (int i = 0; i < T::D; i++) T::at(p, i) += R((T::get(n, i) - T::get(d, i) * dn / dd) * k);
		return p;
	}
	}
}

GEOLAW(line, 1)
{
	GEOTYPES;
	V a = T::vec(c), b;
	if (c.draw(8) == 7) T::at(a, int(c.draw(D))) += mag<Real>(c, 4, 20);
	bool null = c.draw(10) == 9;
	if (null) b = a;
	else { b = T::vec(c); if (c.draw(4) == 3) { Real k = mag<Real>(c, -10, 0); V n = T::unit(c); for (int i = 0; i < D; i++) T::at(b, i) = T::get(a, i) + T::get(n, i) * k; } }
	SHOWV(a); SHOWV(b);
	Line l = Line::from(a, b);
	SAMEV(l.start, a); SAMEV(l.end, b);
	bool same = gen::sameV<T>(a, b);
	REQUIRE(l.isNull() == same);
	V d = b - a;
	c.nontrivial(oblique<T>(d) && ref<T>(a) > 0);
	if (same) c.label("null");

	Num<Real> ls(0);
	for (int i = 0; i < D; i++) { Num<Real> q = Num<Real>(T::get(b, i)) - Num<Real>(T::get(a, i)); ls += q * q; }
	NEAR(l.lengthSqr(), ls);
	NEAR(l.length(), nsqrt(ls));

	Real t = c.draw(4) == 0 ? real<Real>(c, -4, 8) : unit01<Real>(c);
	SHOW(t);
	NEARV(l.pointAt(t), (perAxis<T>([&](int i) {
		Num<Real> p(T::get(a, i)), q(T::get(b, i)), k(t);
		return (p + (q - p) * k).wide(u * (fabsl(p.v) + fabsl(q.v)) * (1 + fabsl(k.v))); })));
	SAMEV(l.pointAt(Real(0)), a);
	// the ends swapped run the same points backwards
	Line back = Line::from(b, a);
	NEARV(back.pointAt(Real(1) - t), (perAxis<T>([&](int i) {
		Num<Real> p(T::get(a, i)), q(T::get(b, i)), k(t);
		return (p + (q - p) * k).wide(4 * u * (fabsl(p.v) + fabsl(q.v)) * (1 + fabsl(k.v))); })));

	V p = anyNear<T>(c, a, d);
	SHOWV(p);
	LD dist, tol;
	if (same) { dist = apart<T>(a, p); tol = 16 * u * dist + faintest<Real>(); }
	else
	{
		LD e[3], le = 0, along;
		for (int i = 0; i < D; i++) { e[i] = LD(T::get(b, i)) - T::get(a, i); le += e[i] * e[i]; }
		le = sqrtl(le);
		dist = carrier<T>(a, e, p, along);
		LD delta = apart<T>(a, p);
		tol = 32 * u * delta + faintest<Real>() / le;
		if (le < 1e-8L || le > 1e9L || delta > 1e9L) { c.skipped(); return; }
	}
	if (!(ref<T>(p) < 1e15L)) pbt::discard();
	SHOW(dist);
	CLOSE(l.distance(p), dist, tol);
	CLOSE(l.distance(a), 0, 0);
	if (!same) CLOSE(back.distance(p), dist, 2 * tol + 16 * u * apart<T>(b, p));

	// comparisons see every coordinate of both ends
	REQUIRE(l == Line::from(a, b)); REQUIRE(!(l != Line::from(a, b)));
	Line o = l;
	int k = int(c.draw(2 * D));
	Real& x = T::at(k < D ? o.start : o.end, k % D);
	x = x == 0 ? Real(1) : x * Real(1.5);
	REQUIRE(!(l == o)); REQUIRE(l != o);
}

GEOLAW(ray, 1)
{
	GEOTYPES;
	V s = T::vec(c), dir = nonzeroV<T>(c);
	if (c.draw(8) == 7) T::at(s, int(c.draw(D))) += mag<Real>(c, 4, 20);
	SHOWV(s); SHOWV(dir);
	LD ld = ref<T>(dir);
	Ray r = Ray::from(s, dir);
	SAMEV(r.start, s);
	c.nontrivial(oblique<T>(dir) && ref<T>(s) > 0);
	for (int i = 0; i < D; i++) CLOSE(T::get(r.direction, i), LD(T::get(dir, i)) / ld, 8 * u);
	V d = r.direction;

	Real t = real<Real>(c, -6, 10);
	SHOW(t);
	NEARV(r.pointAt(t), (perAxis<T>([&](int i) { return Num<Real>(T::get(s, i)) + Num<Real>(T::get(d, i)) * Num<Real>(t); })));
	SAMEV(r.pointAt(Real(0)), s);

	V p = anyNear<T>(c, s, d);
	SHOWV(p);
	LD e[3], along;
	for (int i = 0; i < D; i++) e[i] = T::get(d, i);
	LD dist = carrier<T>(s, e, p, along), delta = apart<T>(s, p);
	// coordinates are only ever subtracted from those of the start: how far both are from the origin costs nothing
	LD tol = 32 * u * delta + faintest<Real>();
	Real got = r.distance(p);
	SHOW(dist); SHOW(along); SHOW(got);
	// points straight behind a 3D ray may be measured from its start
	if (D == 3 && along < 0 && dist < 4 * tol) { c.nCompared++; if (!(fabsl(got - dist) <= tol) && !(fabsl(got - delta) <= tol)) pbt::failWith("distance behind the start"); }
	else CLOSE(got, dist, tol);
	CLOSE(r.distance(s), 0, 0);

	REQUIRE(r == Ray::from(s, dir)); REQUIRE(!(r != Ray::from(s, dir)));
	Ray o = r;
	int k = int(c.draw(2 * D));
	Real& x = T::at(k < D ? o.start : o.direction, k % D);
	x = x == 0 ? Real(1) : x * Real(1.5);
	REQUIRE(!(r == o)); REQUIRE(r != o);
}

// without a direction there is only the start; and exact positions behind and before the start
GEOLAW3(rayEnds, 0.3)
{
	GEOTYPES;
	V s = T::zero(), p;
	for (int i = 0; i < D; i++) T::at(s, i) = grid<Real>(c, 8);
	SHOWV(s);
	{
		Ray r = Ray::from(s, T::zero());
		SAMEV(r.direction, T::zero());
		SAMEV(r.pointAt(real<Real>(c)), s);
		p = T::vec(c);
		SHOWV(p);
		CLOSE(r.distance(p), apart<T>(s, p), 16 * u * apart<T>(s, p) + faintest<Real>());
	}
	int ax = int(c.draw(D));
	V d = T::zero();
	T::at(d, ax) = c.flip() ? Real(-1) : Real(1);
	Ray r = Ray::from(s, d);
	Real t = grid<Real>(c, 40);
	SHOW(ax); SHOW(t);
	p = s + d * t;
	c.nontrivial(t != 0);
	CLOSE(r.distance(p), t < 0 ? -LD(t) : LD(0), 4 * u * fabsl(t));
}

template <class T, class O> static void castAll(Case& c)
{
	typedef Geo<O, T::D> G;
	typedef typename T::Real Real;
	LD u = std::max(Num<Real>::u(), Num<O>::u());
	typename T::V a = T::vec(c), b = nonzeroV<T>(c);
	SHOWV(a); SHOWV(b);
	c.nontrivial(oblique<T>(b));
	auto l = T::Line::from(a, b).template cast<O>();
	auto r = T::Ray::from(a, b);
	auto q = r.template cast<O>();
	static_assert(std::is_same<decltype(l), typename G::Line>::value, "line type");
	static_assert(std::is_same<decltype(q), typename G::Ray>::value, "ray type");
	for (int i = 0; i < T::D; i++)
	{
		SAME(G::get(l.start, i), O(T::get(a, i))); SAME(G::get(l.end, i), O(T::get(b, i)));
		SAME(G::get(q.start, i), O(T::get(a, i)));
		pbt::near_<O>(c, "cast direction", __LINE__, G::get(q.direction, i), Num<O>(LD(T::get(r.direction, i)), 8 * u), 1);
	}
}
GEOLAW(casts, 0.2)
{
	if (c.flip()) castAll<T, float>(c); else castAll<T, double>(c);
}

// at any size the answers are the same
GEOLAW(scaled, 0.5)
{
	GEOTYPES;
	V a = vecK<T>(c), b = vecK<T>(c), p = vecK<T>(c);
	Real k = pow2<Real>(c), t = real<Real>(c, -4, 4);
	SHOWV(a); SHOWV(b); SHOWV(p); SHOW(k); SHOW(t);
	V ka = scaleV<T>(a, k), kb = scaleV<T>(b, k), kp = scaleV<T>(p, k);
	Line l = Line::from(a, b), kl = Line::from(ka, kb);
	REQUIRE(kl.isNull() == l.isNull());
	LD z = sizeOf<T>(a) + sizeOf<T>(b) + sizeOf<T>(p);
	// squares too small to be told from zero, or nearly so, have no size to compare
	LD le = ref<T>(b - a), m = std::min<LD>(k, 1), lost = faintest<Real>() / (64 * u);
	if (le > 0 && le * m * m < 1e3L * lost) pbt::discard();
	if (ref<T>(b) > 0 && ref<T>(b) * m < 1e3L * lost) pbt::discard();
	LIKE(kl.length(), l.length(), k, z); LIKE(kl.lengthSqr(), l.lengthSqr(), LD(k) * k, z * z);
	LIKE(kl.distance(kp), l.distance(p), k, z * 4 + (le > 0 ? lost / (le * m * m) : lost / m));
	LIKEV(kl.pointAt(t), l.pointAt(t), k, z * (1 + fabsl(t)));
	Ray r = Ray::from(a, b), kr = Ray::from(ka, kb);
	LIKEV(kr.direction, r.direction, 1, 1);
	LIKE(kr.distance(kp), r.distance(p), k, z * 4 + lost / m);
	c.nontrivial(k != 1 && !l.isNull());
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	switch (c.draw(4))
	{
	case 0: { Line2<Real> a, b; equality<Real>(c, a, b, { &a.start.x, &a.start.y, &a.end.x, &a.end.y }, { &b.start.x, &b.start.y, &b.end.x, &b.end.y }); break; }
	case 1: { Line3<Real> a, b; equality<Real>(c, a, b, { &a.start.x, &a.start.y, &a.start.z, &a.end.x, &a.end.y, &a.end.z }, { &b.start.x, &b.start.y, &b.start.z, &b.end.x, &b.end.y, &b.end.z }); break; }
	case 2: { Ray2<Real> a, b; equality<Real>(c, a, b, { &a.start.x, &a.start.y, &a.direction.x, &a.direction.y }, { &b.start.x, &b.start.y, &b.direction.x, &b.direction.y }); break; }
	default: { Ray3<Real> a, b; equality<Real>(c, a, b, { &a.start.x, &a.start.y, &a.start.z, &a.direction.x, &a.direction.y, &a.direction.z }, { &b.start.x, &b.start.y, &b.start.z, &b.direction.x, &b.direction.y, &b.direction.z }); break; }
	}
}
