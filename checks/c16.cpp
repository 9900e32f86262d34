// C16: axis-aligned boxes as sets of points
#include "boxes.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C16";
const char* pbt::RULE = "boxes and points with coordinates shared between them (touching, nested, disjoint and degenerate boxes arise often), point lists of 1 to 12 points packed or strided, histories of growth and movement; "
	"non-trivial: the box has extent along every axis (or the pair relation is not decided by one axis alone)";

template <class T> static bool solid(const typename T::A& a)
{
	for (int i = 0; i < T::D; i++) if (!(T::get(a.sup, i) > T::get(a.inf, i))) return false;
	return true;
}
template <class T> static typename T::A bounds(const std::vector<typename T::V>& p)
{
	typename T::A a;
	a.inf = a.sup = p[0];
	for (auto& v : p) for (int i = 0; i < T::D; i++)
	{
		if (T::get(v, i) < T::get(a.inf, i)) T::at(a.inf, i) = T::get(v, i);
		if (T::get(v, i) > T::get(a.sup, i)) T::at(a.sup, i) = T::get(v, i);
	}
	return a;
}
// membership by definition
template <class T> static bool in(const typename T::A& a, const typename T::V& p)
{
	for (int i = 0; i < T::D; i++) if (T::get(p, i) < T::get(a.inf, i) || T::get(p, i) > T::get(a.sup, i)) return false;
	return true;
}

GEOLAW(points, 1.5)
{
	GEOTYPES;
	Pools<Real> pool(c.flip());
	int n = gen::count(c, 1, 12, 70);
	std::vector<V> p;
	for (int i = 0; i < n; i++) { p.push_back(anyPoint<T>(c, pool)); c.show("point", s(p.back())); }
	A ref = bounds<T>(p);
	c.nontrivial(solid<T>(ref));
	if (n == 1) c.label("one point");
	auto m = packed<T>(p);
	Strided<T> st(c, p);
	A junk; for (int i = 0; i < D; i++) { T::at(junk.inf, i) = Real(-1000); T::at(junk.sup, i) = Real(1000); }
	{ A k = junk; REQUIRE(&k.set(n, m.get()) == &k); SAMEBOX(k, ref); }
	{ A k = junk; REQUIRE(&k.set(n, st.points(), st.stride) == &k); SAMEBOX(k, ref); }
	SAMEBOX(A::from(n, m.get()), ref);
	SAMEBOX(A::from(n, st.points(), st.stride), ref);
	for (auto& v : p) REQUIRE(ref.contains(v));
	// one point
	{ A k = junk; REQUIRE(&k.set(p[0]) == &k); SAMEV(k.inf, p[0]); SAMEV(k.sup, p[0]); SAMEBOX(A::from(p[0]), k); REQUIRE(k.isNull()); REQUIRE(k.contains(p[0])); }
	// the same box, point by point, in order
	{ A k = A::from(p[0]); for (int i = 1; i < n; i++) REQUIRE(&k.add(p[i]) == &k); SAMEBOX(k, ref); }
	// and as unions of the parts
	{ int h = c.range(1, n); A a = A::from(h, m.get()); if (h < n) a = A::fromUnion(a, A::from(n - h, m.get() + h)); SAMEBOX(a, ref); }
	// the list is not modified
	for (int i = 0; i < n; i++) SAMEV(m[i], p[i]);
}

GEOLAW(history, 1.5)
{
	GEOTYPES;
	Pools<Real> pool(c.flip());
	std::vector<V> all;
	all.push_back(anyPoint<T>(c, pool));
	A k(all[0], all[0]);
	SHOWBOX(k);
	int steps = c.range(1, 12);
	for (int st = 0; st < steps; st++)
	{
		switch (c.draw(4))
		{
		case 0: case 1: { V p = anyPoint<T>(c, pool); c.show("add", s(p)); bool was = k.contains(p); A before = k; k.add(p); all.push_back(p); if (was) SAMEBOX(k, before); break; }
		case 2: { A b = anyBox<T>(c, pool); c.show("union", sbox<T>(b)); k = A::fromUnion(k, b); all.push_back(b.inf); all.push_back(b.sup); break; }
		default: { // a point of its own
			V p = c.flip() ? k.inf : k.sup; const V& own = c.flip() ? k.inf : k.sup; (void)p; k.add(own); break; }
		}
		SAMEBOX(k, bounds<T>(all));
	}
	c.nontrivial(solid<T>(k));
	for (auto& v : all) REQUIRE(k.contains(v));
	// nothing beyond: step a little off any face and the box no longer contains the point
	V off = k.inf;
	int ax = int(c.draw(D));
	Real far = std::numeric_limits<Real>::infinity();
	{ V q = k.inf; T::at(q, ax) = std::nextafter(T::get(k.inf, ax), -far); REQUIRE(!k.contains(q)); }
	{ V q = k.sup; T::at(q, ax) = std::nextafter(T::get(k.sup, ax), far); REQUIRE(!k.contains(q)); }
	(void)off;
}

GEOLAW(pairs, 3)
{
	GEOTYPES;
	Pools<Real> pool(c.flip());
	A a = anyBox<T>(c, pool), b = anyBox<T>(c, pool);
	SHOWBOX(a); SHOWBOX(b);
	int apart = 0, touch = 0, inside = 0;
	A cut;
	for (int i = 0; i < D; i++)
	{
		Real lo = std::max(T::get(a.inf, i), T::get(b.inf, i)), hi = std::min(T::get(a.sup, i), T::get(b.sup, i));
		T::at(cut.inf, i) = lo; T::at(cut.sup, i) = hi;
		if (lo > hi) apart++;
		if (lo == hi) touch++;
		if (T::get(b.inf, i) >= T::get(a.inf, i) && T::get(b.sup, i) <= T::get(a.sup, i)) inside++;
	}
	if (apart) c.label("disjoint"); else if (touch) c.label("touching"); else if (inside == D) c.label("nested"); else c.label("overlapping");
	c.nontrivial(apart == 0 || (apart == 1 && inside < D));
	REQUIRE(a.intersects(b) == (apart == 0));
	REQUIRE(b.intersects(a) == (apart == 0));
	REQUIRE(a.intersects(a)); REQUIRE(a.contains(a));
	REQUIRE(a.contains(b) == (inside == D));
	A hull = bounds<T>({a.inf, a.sup, b.inf, b.sup});
	SAMEBOX(A::fromUnion(a, b), hull);
	SAMEBOX(A::fromUnion(b, a), hull);
	SAMEBOX(A::fromUnion(a, a), a);
	REQUIRE(hull.contains(a)); REQUIRE(hull.contains(b));
	A x = A::fromIntersection(a, b);
	if (apart == 0)
	{
		SAMEBOX(x, cut);
		SAMEBOX(A::fromIntersection(b, a), cut);
		REQUIRE(a.contains(x)); REQUIRE(b.contains(x));
	}
	else
	{
		// nothing in common: the null box at the origin
		SAMEBOX(x, A::Zero); REQUIRE(x.isNull());
	}
	SAMEBOX(A::fromIntersection(a, a), a);
	REQUIRE((a == b) == (sameV<T>(a.inf, b.inf) && sameV<T>(a.sup, b.sup)));
	REQUIRE((a != b) == !(a == b));
	REQUIRE(a == A(a)); REQUIRE(!(a != A(a)));
	// one corner coordinate changed alone is a different box
	{ A k = a; int ax = int(c.draw(D)); Real& v = c.flip() ? T::at(k.inf, ax) : T::at(k.sup, ax); v = v + Real(1); REQUIRE(!(a == k)); REQUIRE(a != k); }
	// pointwise
	for (int j = 0; j < 3; j++)
	{
		V p = anyPoint<T>(c, pool);
		c.show("p", s(p));
		bool ia = in<T>(a, p), ib = in<T>(b, p);
		REQUIRE(a.contains(p) == ia); REQUIRE(b.contains(p) == ib);
		if (apart == 0) REQUIRE(x.contains(p) == (ia && ib));
		if (ia || ib) REQUIRE(hull.contains(p));
		if (inside == D && ib) REQUIRE(a.contains(p));
		// a degenerate box is its point
		REQUIRE(a.contains(A::from(p)) == ia); REQUIRE(a.intersects(A::from(p)) == ia);
	}
}

GEOLAW(measures, 2)
{
	GEOTYPES;
	typedef Num<Real> N;
	Pools<Real> pool(c.flip());
	A a = anyBox<T>(c, pool);
	SHOWBOX(a);
	c.nontrivial(solid<T>(a));
	auto lo = [&](int i) { return N(T::get(a.inf, i)); };
	auto hi = [&](int i) { return N(T::get(a.sup, i)); };
	const NV<T> mid = perAxis<T>([&](int i) { return (lo(i) + hi(i)) * N(0.5); });
	const NV<T> half = perAxis<T>([&](int i) { return (hi(i) - lo(i)) * N(0.5); });
	NEARV(a.center(), mid);
	NEARV(a.extents(), half);
	NEARV(a.size(), perAxis<T>([&](int i) { return hi(i) - lo(i); }));
	N vol = hi(0) - lo(0); for (int i = 1; i < D; i++) vol *= hi(i) - lo(i);
	NEAR(T::measure(a), vol);
	bool null = sameV<T>(a.inf, a.sup);
	REQUIRE(a.isNull() == null);
	// inner and outer circle or sphere
	N small = half.a[0], sq = half.a[0] * half.a[0];
	for (int i = 1; i < D; i++) { if (half.a[i].v < small.v) small = half.a[i]; sq += half.a[i] * half.a[i]; }
	S in = T::inner(a), out = T::outer(a);
	NEARV(in.center, mid); NEARV(out.center, mid);
	NEAR(in.radius, small.wide(small.v * 4 * u));
	NEAR(out.radius, nsqrt(sq));
	// points at ratios of the way from corner to corner
	V t = T::zero();
	for (int i = 0; i < D; i++) T::at(t, i) = c.draw(4) == 3 ? real<Real>(c, -2, 2) : unit01<Real>(c);
	SHOWV(t);
	V q = a.pointAt(t);
	NEARV(q, perAxis<T>([&](int i) { return lo(i) + (hi(i) - lo(i)) * N(T::get(t, i)); }));
	SAMEV(a.pointAt(T::zero()), a.inf);
	// corners are taken as given
	SAMEBOX(A(a.inf, a.sup), a); SAMEBOX(A::from(a.inf, a.sup), a);
	{ A k; REQUIRE(&k.set(a.inf, a.sup) == &k); SAMEBOX(k, a); }
	// from the other representation
	V ctr = anyPoint<T>(c, pool), ext = T::zero();
	for (int i = 0; i < D; i++) T::at(ext, i) = std::abs(pool.ax[i].next(c));
	B b; b.center = ctr; b.extents = ext;
	c.show("centre", s(ctr)); c.show("extents", s(ext));
	const NV<T> blo = perAxis<T>([&](int i) { return N(T::get(ctr, i)) - N(T::get(ext, i)); });
	const NV<T> bhi = perAxis<T>([&](int i) { return N(T::get(ctr, i)) + N(T::get(ext, i)); });
	{ A k = A::from(b); NEARV(k.inf, blo); NEARV(k.sup, bhi); A k2 = a; REQUIRE(&k2.set(b) == &k2); SAMEBOX(k2, k); }
	// casts
	{
		auto f = a.template cast<float>(); auto d = a.template cast<double>();
		for (int i = 0; i < D; i++)
		{
			REQUIRE(Geo<float, T::D>::get(f.inf, i) == float(T::get(a.inf, i))); REQUIRE(Geo<float, T::D>::get(f.sup, i) == float(T::get(a.sup, i)));
			REQUIRE(Geo<double, T::D>::get(d.inf, i) == double(T::get(a.inf, i))); REQUIRE(Geo<double, T::D>::get(d.sup, i) == double(T::get(a.sup, i)));
		}
	}
	for (int i = 0; i < D; i++)
	{
		SAME(T::get(A::Zero.inf, i), Real(0)); SAME(T::get(A::Zero.sup, i), Real(0));
		SAME(T::get(A::One.inf, i), Real(-0.5)); SAME(T::get(A::One.sup, i), Real(0.5));
	}
}

GEOLAW(moves, 2)
{
	GEOTYPES;
	typedef Num<Real> N;
	Pools<Real> pool(c.flip());
	A a = anyBox<T>(c, pool);
	V t = anyPoint<T>(c, pool);
	Real k = c.flip() ? positive<Real>(c, -4, 4) : real<Real>(c, -4, 4);
	if (c.oneIn(8)) k = divisor<Real>(c);
	SHOWBOX(a); SHOWV(t); SHOW(k);
	c.nontrivial(solid<T>(a) && k != Real(1));
	auto lo = [&](int i) { return N(T::get(a.inf, i)); };
	auto hi = [&](int i) { return N(T::get(a.sup, i)); };
	auto tt = [&](int i) { return N(T::get(t, i)); };
	const A orig = a;
	A p = a + t, m = a - t;
	NEARV(p.inf, perAxis<T>([&](int i) { return lo(i) + tt(i); })); NEARV(p.sup, perAxis<T>([&](int i) { return hi(i) + tt(i); }));
	NEARV(m.inf, perAxis<T>([&](int i) { return lo(i) - tt(i); })); NEARV(m.sup, perAxis<T>([&](int i) { return hi(i) - tt(i); }));
	{ A x = a; REQUIRE(&(x += t) == &x); SAMEBOX(x, p); }
	{ A x = a; REQUIRE(&(x -= t) == &x); SAMEBOX(x, m); }
	// a box may be moved by its own corners
	{ A x = a; A e = a + V(a.inf); x += x.inf; SAMEBOX(x, e); }
	{ A x = a; A e = a + V(a.sup); x += x.sup; SAMEBOX(x, e); }
	{ A x = a; A e = a - V(a.inf); x -= x.inf; SAMEBOX(x, e); }
	{ A x = a; A e = a - V(a.sup); x -= x.sup; SAMEBOX(x, e); }
	// scaling keeps the centre
	auto mid = [&](int i) { return (lo(i) + hi(i)) * N(0.5); };
	auto half = [&](int i) { return (hi(i) - lo(i)) * N(0.5); };
	A s1 = a * k;
	NEARV(s1.inf, perAxis<T>([&](int i) { return mid(i) - half(i) * N(k); })); NEARV(s1.sup, perAxis<T>([&](int i) { return mid(i) + half(i) * N(k); }));
	{ A x = a; REQUIRE(&(x *= k) == &x); SAMEBOX(x, s1); }
	{ A x = a; REQUIRE(&x.scaleCentered(k) == &x); SAMEBOX(x, s1); }
	{
		// turned over it is as large as upright
		A x = a * -k;
		SAME(T::inner(s1).radius, T::inner(x).radius); SAME(T::outer(s1).radius, T::outer(x).radius);
	}
	if (k != Real(0))
	{
		A s2 = a / k;
		auto inv = N(1) / N(k);
		NEARV(s2.inf, perAxis<T>([&](int i) { return mid(i) - half(i) * inv; })); NEARV(s2.sup, perAxis<T>([&](int i) { return mid(i) + half(i) * inv; }));
		{ A x = a; REQUIRE(&(x /= k) == &x); SAMEBOX(x, s2); }
	}
	SAMEBOX(a, orig);
}

// whole spheres in boxes (3D only)
GEOLAW3(spheres, 2)
{
	GEOTYPES;
	typedef Num<Real> N;
	bool exact = c.flip();
	Pools<Real> pool(exact);
	A a = anyBox<T>(c, pool);
	S sp;
	sp.center = anyPoint<T>(c, pool);
	switch (c.draw(3))
	{
	case 0: sp.radius = std::abs(pool.ax[0].next(c)); break;
	case 1: { int ax = int(c.draw(3)); sp.radius = std::abs(T::get(sp.center, ax) - (c.flip() ? T::get(a.inf, ax) : T::get(a.sup, ax))); break; }
	default: sp = a.innerSphere();
	}
	SHOWBOX(a); c.show("centre", s(sp.center)); c.show("radius", sp.radius);
	Margin<Real> m(exact);
	for (int i = 0; i < 3; i++)
	{
		m.all((N(T::get(sp.center, i)) - N(sp.radius)) - N(T::get(a.inf, i)));
		m.all(N(T::get(a.sup, i)) - (N(T::get(sp.center, i)) + N(sp.radius)));
	}
	if (m.verdict() == 1) c.label("contained");
	c.nontrivial(sp.radius > Real(0));
	DECIDE(a.contains(sp), m);
}

// at any size the answers are the same
GEOLAW(scaled, 1)
{
	GEOTYPES;
	A a = boxK<T>(c), b = boxK<T>(c);
	V p = c.flip() ? a.pointAt(b.inf) : vecK<T>(c);
	Real k = pow2<Real>(c);
	SHOWBOX(a); SHOWBOX(b); SHOWV(p); SHOW(k);
	c.nontrivial(k != 1 && (a.contains(p) || a.intersects(b)));
	A ka = scaleA<T>(a, k), kb = scaleA<T>(b, k);
	V kp = scaleV<T>(p, k);
	REQUIRE(ka.contains(kp) == a.contains(p)); REQUIRE(ka.contains(kb) == a.contains(b)); REQUIRE(ka.intersects(kb) == a.intersects(b));
	REQUIRE(ka.isNull() == a.isNull()); REQUIRE((ka == kb) == (a == b));
	REQUIRE(ka.contains(ka)); REQUIRE(kb.intersects(kb));
	SAMEBOX(A::fromUnion(ka, kb), scaleA<T>(A::fromUnion(a, b), k));
	SAMEBOX(A::fromIntersection(ka, kb), scaleA<T>(A::fromIntersection(a, b), k));
	{ A x = ka, y = a; x.add(kp); y.add(p); SAMEBOX(x, scaleA<T>(y, k)); }
	LD z = sizeOf<T>(a.inf) + sizeOf<T>(a.sup), kd = 1;
	for (int i = 0; i < D; i++) kd *= k;
	LIKEV(ka.center(), a.center(), k, z); LIKEV(ka.extents(), a.extents(), k, z); LIKEV(ka.size(), a.size(), k, z);
	LIKE(T::measure(ka), T::measure(a), kd, fabsl(T::measure(a)));
	LIKE(T::inner(ka).radius, T::inner(a).radius, k, z); LIKE(T::outer(ka).radius, T::outer(a).radius, k, z);
}
GEOLAW3(scaledSphere, 0.5)
{
	GEOTYPES;
	A a = boxK<T>(c);
	S sp; sp.center = c.flip() ? a.center() : vecK<T>(c); sp.radius = c.flip() ? a.innerSphere().radius : positive<Real>(c);
	Real k = pow2<Real>(c);
	SHOWBOX(a); c.show("centre", s(sp.center)); c.show("radius", sp.radius); SHOW(k);
	c.nontrivial(a.contains(sp) || k != 1);
	REQUIRE(scaleA<T>(a, k).contains(scaleS<T>(sp, k)) == a.contains(sp));
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	switch (c.draw(2))
	{
	case 0: { AABB2<Real> a, b; equality<Real>(c, a, b, { &a.inf.x, &a.inf.y, &a.sup.x, &a.sup.y }, { &b.inf.x, &b.inf.y, &b.sup.x, &b.sup.y }); break; }
	default: { AABB3<Real> a, b; equality<Real>(c, a, b, { &a.inf.x, &a.inf.y, &a.inf.z, &a.sup.x, &a.sup.y, &a.sup.z }, { &b.inf.x, &b.inf.y, &b.inf.z, &b.sup.x, &b.sup.y, &b.sup.z }); break; }
	}
}
