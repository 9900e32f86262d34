// C18: boxes kept as centre and half extents against boxes kept as corners
#include "boxes.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C18";
const char* pbt::RULE = "centre boxes and corner boxes with the same bounds, on exactly representable grids (compared exactly, touching included) and in general (compared outside rounding), points shared with the boxes, point lists packed and strided, histories of growth, movement and scaling; "
	"non-trivial: the box has extent along every axis";

template <class T> static std::string sb(const typename T::B& b) { return "{" + s(b.center) + " +- " + s(b.extents) + "}"; }
#define SHOWB(X) c.show(#X, sb<T>(X))
#define SAMEB(X, Y) do { auto a_ = (X); auto b_ = (Y); c.nCompared++; if (!gen::sameV<T>(a_.center, b_.center) || !gen::sameV<T>(a_.extents, b_.extents)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #X " = " + sb<T>(a_) + " differs from " #Y " = " + sb<T>(b_)); } while (0)
template <class T> static bool solid(const typename T::V& e) { for (int i = 0; i < T::D; i++) if (!(T::get(e, i) > 0)) return false; return true; }

template <class T> static typename T::B anyB(Case& c, Pools<typename T::Real>& pool)
{
	typename T::B b;
	b.center = anyPoint<T>(c, pool);
	b.extents = T::zero();
	for (int i = 0; i < T::D; i++) if (c.draw(6) != 5) T::at(b.extents, i) = std::abs(pool.ax[i].next(c));
	return b;
}

GEOLAW(bounds, 2)
{
	GEOTYPES;
	typedef Num<Real> N;
	bool ex = c.flip();
	Pools<Real> pool(ex);
	V ctr = anyPoint<T>(c, pool), size = T::zero();
	for (int i = 0; i < D; i++) T::at(size, i) = std::abs(pool.ax[i].next(c));
	c.show("centre", s(ctr)); c.show("size", s(size));
	c.nontrivial(solid<T>(size));
	auto n = [&](const V& v, int i) { return N(T::get(v, i)); };
	B b(ctr, size);
	SAMEV(b.center, ctr);
	NEARV(b.extents, perAxis<T>([&](int i) { return n(size, i) * N(0.5); }));
	SAMEB(B::from(ctr, size), b);
	{ B k; REQUIRE(&k.set(ctr, size) == &k); SAMEB(k, b); }
	NEARV(b.inf(), perAxis<T>([&](int i) { return n(ctr, i) - n(size, i) * N(0.5); }));
	NEARV(b.sup(), perAxis<T>([&](int i) { return n(ctr, i) + n(size, i) * N(0.5); }));
	NEARV(b.size(), nv<T>(size));
	// a single point
	{ B k = B::from(ctr); SAMEV(k.inf(), ctr); SAMEV(k.sup(), ctr); REQUIRE(k.isNull()); SAMEV(k.center, ctr); SAMEV(k.extents, T::zero()); B j = b; REQUIRE(&j.set(ctr) == &j); SAMEB(j, k); }
	// from corners and back
	A a = anyBox<T>(c, pool);
	SHOWBOX(a);
	B f; REQUIRE(&f.set(a) == &f);
	SAMEB(T::fromCorners(a), f);
	NEARV(f.center, perAxis<T>([&](int i) { return (n(a.inf, i) + n(a.sup, i)) * N(0.5); }));
	NEARV(f.extents, perAxis<T>([&](int i) { return (n(a.sup, i) - n(a.inf, i)) * N(0.5); }));
	A back = A::from(f);
	SAMEV(back.inf, f.inf()); SAMEV(back.sup, f.sup());
	if (ex) SAMEBOX(back, a);
	else
	{
		NEARV(back.inf, perAxis<T>([&](int i) { return n(a.inf, i).wide((fabsl(T::get(a.inf, i)) + fabsl(T::get(a.sup, i))) * u * 2); }));
		NEARV(back.sup, perAxis<T>([&](int i) { return n(a.sup, i).wide((fabsl(T::get(a.inf, i)) + fabsl(T::get(a.sup, i))) * u * 2); }));
	}
	// the same measures
	NEAR(T::measure(f), Num<Real>(T::measure(a), fabsl(LD(T::measure(a))) * 8 * u + (ex ? 0 : 1e-30L)));
	REQUIRE(f.isNull() == a.isNull());
	NEARV(f.size(), perAxis<T>([&](int i) { return n(a.sup, i) - n(a.inf, i); }));
	S i1 = T::inner(f), i2 = T::inner(a), o1 = T::outer(f), o2 = T::outer(a);
	SAMEV(i1.center, f.center); SAMEV(o1.center, f.center);
	CLOSE(i1.radius, i2.radius, 8 * u * i2.radius);
	CLOSE(o1.radius, o2.radius, 8 * u * o2.radius);
	{ N sq = N(0); LD least = 1e4000L; for (int i = 0; i < D; i++) { sq += n(f.extents, i) * n(f.extents, i); least = std::min(least, LD(T::get(f.extents, i))); } NEAR(o1.radius, nsqrt(sq)); CLOSE(i1.radius, least, 4 * u * least); }
	// a point at ratios: -1 .. 1 here is 0 .. 1 there
	V t = T::zero(), t2 = T::zero();
	for (int i = 0; i < D; i++) { T::at(t, i) = unit01<Real>(c); T::at(t2, i) = T::get(t, i) * Real(2) - Real(1); }
	SHOWV(t);
	NEARV(f.pointAt(t2), perAxis<T>([&](int i) { return (n(a.inf, i) + (n(a.sup, i) - n(a.inf, i)) * n(t, i)).wide(8 * u * (fabsl(T::get(a.inf, i)) + fabsl(T::get(a.sup, i)))); }));
	SAMEV(f.pointAt(T::zero()), f.center);
	for (int i = 0; i < D; i++) { SAME(T::get(B::One.center, i), Real(0)); SAME(T::get(B::One.extents, i), Real(0.5)); }
	// casts
	{
		auto x = f.template cast<float>(); auto y = f.template cast<double>();
		for (int i = 0; i < D; i++)
		{
			REQUIRE(Geo<float, T::D>::get(x.center, i) == float(T::get(f.center, i))); REQUIRE(Geo<float, T::D>::get(x.extents, i) == float(T::get(f.extents, i)));
			REQUIRE(Geo<double, T::D>::get(y.center, i) == double(T::get(f.center, i))); REQUIRE(Geo<double, T::D>::get(y.extents, i) == double(T::get(f.extents, i)));
		}
	}
}

GEOLAW(points, 1.5)
{
	GEOTYPES;
	Pools<Real> pool(c.flip());
	int n = gen::count(c, 1, 12, 70);
	std::vector<V> p;
	for (int i = 0; i < n; i++) { p.push_back(anyPoint<T>(c, pool)); c.show("point", s(p.back())); }
	auto m = packed<T>(p);
	Strided<T> st(c, p);
	// reference bounds by definition
	A a(p[0], p[0]);
	for (auto& v : p) for (int i = 0; i < D; i++) { T::at(a.inf, i) = std::min(T::get(a.inf, i), T::get(v, i)); T::at(a.sup, i) = std::max(T::get(a.sup, i), T::get(v, i)); }
	B ref;
	for (int i = 0; i < D; i++) { T::at(ref.center, i) = Real((LD(T::get(a.inf, i)) + LD(T::get(a.sup, i))) / 2); T::at(ref.extents, i) = Real((LD(T::get(a.sup, i)) - LD(T::get(a.inf, i))) / 2); }
	SHOWB(ref);
	c.nontrivial(solid<T>(ref.extents));
	auto close = [&](const B& b, int line)
	{
		for (int i = 0; i < D; i++)
		{
			LD tol = 4 * u * (fabsl(T::get(a.inf, i)) + fabsl(T::get(a.sup, i)));
			pbt::near_<Real>(c, "center", line, T::get(b.center, i), Num<Real>(T::get(ref.center, i), tol), 1);
			pbt::near_<Real>(c, "extents", line, T::get(b.extents, i), Num<Real>(T::get(ref.extents, i), tol), 1);
		}
	};
	B junk(T::zero(), T::zero()); for (int i = 0; i < D; i++) { T::at(junk.center, i) = Real(5); T::at(junk.extents, i) = Real(1000); }
	{ B k = junk; REQUIRE(&k.set(n, m.get()) == &k); close(k, __LINE__); SAMEB(B::from(n, m.get()), k); }
	{ B k = junk; REQUIRE(&k.set(n, st.points(), st.stride) == &k); close(k, __LINE__); SAMEB(B::from(n, st.points(), st.stride), k); }
	if (pool.exact) { SAMEB(B::from(n, m.get()), ref); for (auto& v : p) REQUIRE(ref.contains(v)); }
}

// the same questions asked of both representations
GEOLAW(queries, 2)
{
	GEOTYPES;
	typedef Num<Real> N;
	bool ex = c.draw(3) != 2;
	Pools<Real> pool(ex);
	B b1 = anyB<T>(c, pool), b2 = anyB<T>(c, pool);
	// now and then one placed against a face of the other
	if (c.draw(3) == 0) { int ax = int(c.draw(D)); Real o = T::get(b1.extents, ax) + (c.flip() ? T::get(b2.extents, ax) : -T::get(b2.extents, ax)); T::at(b2.center, ax) = T::get(b1.center, ax) + (c.flip() ? o : -o); }
	SHOWB(b1); SHOWB(b2);
	c.nontrivial(solid<T>(b1.extents) && solid<T>(b2.extents));
	auto lo = [&](const B& b, int i) { return N(T::get(b.center, i)) - N(T::get(b.extents, i)); };
	auto hi = [&](const B& b, int i) { return N(T::get(b.center, i)) + N(T::get(b.extents, i)); };
	Margin<Real> meet(ex), in(ex);
	for (int i = 0; i < D; i++)
	{
		meet.all(hi(b1, i) - lo(b2, i)); meet.all(hi(b2, i) - lo(b1, i));
		in.all(lo(b2, i) - lo(b1, i)); in.all(hi(b1, i) - hi(b2, i));
	}
	if (meet.verdict() == 1) c.label("meeting"); if (in.verdict() == 1) c.label("nested");
	DECIDE(b1.intersects(b2), meet);
	DECIDE(b2.intersects(b1), meet);
	DECIDE(b1.contains(b2), in);
	REQUIRE(b1.contains(b1)); REQUIRE(b1.intersects(b1));
	A a1 = A::from(b1), a2 = A::from(b2);
	if (ex) { REQUIRE(a1.intersects(a2) == b1.intersects(b2)); REQUIRE(a1.contains(a2) == b1.contains(b2)); }
	for (int j = 0; j < 3; j++)
	{
		V p = anyPoint<T>(c, pool);
		if (c.draw(3) == 0) { V w = T::zero(); for (int i = 0; i < D; i++) T::at(w, i) = Real(c.range(-4, 4)) / Real(4); p = b1.pointAt(w); }
		c.show("p", s(p));
		Margin<Real> m(ex && true);
		for (int i = 0; i < D; i++) { N x(T::get(p, i)); m.all(x - lo(b1, i)); m.all(hi(b1, i) - x); }
		DECIDE(b1.contains(p), m);
		if (ex) REQUIRE(a1.contains(p) == b1.contains(p));
	}
	REQUIRE((b1 == b2) == (sameV<T>(b1.center, b2.center) && sameV<T>(b1.extents, b2.extents)));
	REQUIRE((b1 != b2) == !(b1 == b2));
	REQUIRE(b1 == B(b1)); REQUIRE(!(b1 != B(b1)));
	{ B k = b1; int ax = int(c.draw(D)); Real& v = c.flip() ? T::at(k.center, ax) : T::at(k.extents, ax); v = v + Real(1); REQUIRE(!(b1 == k)); REQUIRE(b1 != k); }
}

GEOLAW3(spheres, 1.5)
{
	GEOTYPES;
	typedef Num<Real> N;
	bool ex = c.flip();
	Pools<Real> pool(ex);
	B b = anyB<T>(c, pool);
	S sp; sp.center = anyPoint<T>(c, pool);
	switch (c.draw(3))
	{
	case 0: sp.radius = std::abs(pool.ax[0].next(c)); break;
	case 1: { int ax = int(c.draw(3)); sp.radius = std::abs(T::get(sp.center, ax) - (c.flip() ? T::get(b.inf(), ax) : T::get(b.sup(), ax))); break; }
	default: sp = b.innerSphere();
	}
	SHOWB(b); c.show("centre", s(sp.center)); c.show("radius", sp.radius);
	Margin<Real> m(ex);
	for (int i = 0; i < 3; i++)
	{
		N lo = N(T::get(b.center, i)) - N(T::get(b.extents, i)), hi = N(T::get(b.center, i)) + N(T::get(b.extents, i));
		m.all((N(T::get(sp.center, i)) - N(sp.radius)) - lo);
		m.all(hi - (N(T::get(sp.center, i)) + N(sp.radius)));
	}
	c.nontrivial(sp.radius > Real(0) && solid<T>(b.extents));
	if (m.verdict() == 1) c.label("contained");
	DECIDE(b.contains(sp), m);
	if (ex) REQUIRE(A::from(b).contains(sp) == b.contains(sp));
}

// grown, moved and scaled side by side with a corner box
GEOLAW(history, 2)
{
	GEOTYPES;
	bool ex = c.draw(3) != 2;
	Pools<Real> pool(ex);
	B b = anyB<T>(c, pool);
	A a = A::from(b);
	SHOWB(b);
	c.nontrivial(solid<T>(b.extents));
	LD mag[3]; for (int i = 0; i < D; i++) mag[i] = fabsl(T::get(b.center, i)) + fabsl(T::get(b.extents, i));
	int steps = c.range(1, 8);
	bool exact = ex, wild = false;
	for (int st = 0; st < steps; st++)
	{
		auto grow = [&](const V& v) { for (int i = 0; i < D; i++) mag[i] += fabsl(T::get(v, i)); };
		switch (c.draw(6))
		{
		case 0: case 1:
		{
			V p = anyPoint<T>(c, pool); c.show("add", s(p)); grow(p);
			bool in = b.contains(p); B before = b;
			REQUIRE(&b.add(p) == &b); a.add(p);
			if (in) SAMEB(b, before);
			// what it contained before and the new point are contained
			for (int i = 0; i < D; i++) { LD tol = exact ? 0 : 8 * u * mag[i]; REQUIREM(T::get(b.inf(), i) <= T::get(p, i) + tol && T::get(b.sup(), i) >= T::get(p, i) - tol, "added point is outside");
				REQUIREM(T::get(b.inf(), i) <= T::get(before.inf(), i) + tol && T::get(b.sup(), i) >= T::get(before.sup(), i) - tol, "shrunk"); }
			break;
		}
		case 2: { V t = anyPoint<T>(c, pool); c.show("+=", s(t)); grow(t); B e = b + t; REQUIRE(&(b += t) == &b); SAMEB(b, e); a += t; break; }
		case 3: { V t = anyPoint<T>(c, pool); c.show("-=", s(t)); grow(t); B e = b - t; REQUIRE(&(b -= t) == &b); SAMEB(b, e); a -= t; break; }
		case 4:
		{
			static const double ks[] = {2, 0.5, 1, 4, 0.25, 3, 1.7, 0};
			Real k = Real(ks[c.draw(8)]);
			if (!wild && c.oneIn(8)) { k = gen::mag<Real>(c, -16, 16); wild = true; exact = false; }
			c.show("*=", k);
			if (k == Real(3) || k == Real(1.7)) exact = false;
			B e = b * k; V ctr = b.center, ext = b.extents;
			REQUIRE(&(b *= k) == &b); SAMEB(b, e); SAMEV(b.center, ctr);
			NEARV(b.extents, perAxis<T>([&](int i) { return Num<Real>(T::get(ext, i)) * Num<Real>(k); }));
			a *= k;
			for (int i = 0; i < D; i++) mag[i] *= std::max(LD(1), LD(k));
			break;
		}
		default:
		{
			static const double ks[] = {2, 0.5, 1, 4, 0.25, 3, 1.7};
			Real k = Real(ks[c.draw(7)]);
			if (!wild && c.oneIn(8)) { k = gen::mag<Real>(c, -16, 16); wild = true; exact = false; }
			c.show("/=", k);
			if (k == Real(3) || k == Real(1.7)) exact = false;
			B e = b / k; V ctr = b.center, ext = b.extents;
			REQUIRE(&(b /= k) == &b); SAMEB(b, e); SAMEV(b.center, ctr);
			NEARV(b.extents, perAxis<T>([&](int i) { return Num<Real>(T::get(ext, i)) / Num<Real>(k); }));
			a /= k;
			for (int i = 0; i < D; i++) mag[i] *= std::max(LD(1), 1 / LD(k));
			break;
		}
		}
		V i1 = b.inf(), s1 = b.sup();
		for (int i = 0; i < D; i++)
		{
			LD tol = exact ? 0 : 16 * u * mag[i] * (st + 1);
			CLOSE(T::get(i1, i), T::get(a.inf, i), tol);
			CLOSE(T::get(s1, i), T::get(a.sup, i), tol);
		}
	}
}

// a negative factor turns the box over: what its sizes are does not depend on the sign
GEOLAW(turnedOver, 0.4)
{
	GEOTYPES;
	Pools<Real> pool(c.flip());
	B b = anyB<T>(c, pool);
	Real k = -positive<Real>(c, -6, 6);
	SHOWB(b); SHOW(k);
	c.nontrivial(solid<T>(b.extents));
	B e = b * k, m = b * -k, d = b / k, x = b;
	REQUIRE(&(x *= k) == &x); SAMEB(x, e); x = b;
	REQUIRE(&(x /= k) == &x); SAMEB(x, d);
	SAMEV(e.center, b.center); SAMEV(d.center, b.center);
	for (int i = 0; i < D; i++)
	{
		SAME(T::get(e.extents, i), -T::get(m.extents, i));
		SAME(T::get(e.inf(), i), T::get(m.sup(), i)); SAME(T::get(e.sup(), i), T::get(m.inf(), i));
		SAME(T::get(e.size(), i), -T::get(m.size(), i));
	}
	SAME(T::inner(e).radius, T::inner(m).radius); SAME(T::outer(e).radius, T::outer(m).radius);
	SAMEV(T::inner(e).center, b.center); SAMEV(T::outer(e).center, b.center);
	REQUIRE(e.isNull() == m.isNull());
	// turned over twice it is upright again
	SAMEB((b * Real(-1)) * Real(-1), b);
}

// at any size the answers are the same
GEOLAW(scaled, 1)
{
	GEOTYPES;
	B a, b;
	a.center = vecK<T>(c); b.center = vecK<T>(c); a.extents = vecK<T>(c); b.extents = vecK<T>(c);
	for (int i = 0; i < D; i++) { T::at(a.extents, i) = std::abs(T::get(a.extents, i)); T::at(b.extents, i) = std::abs(T::get(b.extents, i)); }
	V p = c.flip() ? a.pointAt(b.center) : vecK<T>(c);
	Real k = pow2<Real>(c);
	SHOWB(a); SHOWB(b); SHOWV(p); SHOW(k);
	c.nontrivial(k != 1 && (a.contains(p) || a.intersects(b)));
	B ka = scaleB<T>(a, k), kb = scaleB<T>(b, k);
	V kp = scaleV<T>(p, k);
	REQUIRE(ka.contains(kp) == a.contains(p)); REQUIRE(ka.contains(kb) == a.contains(b)); REQUIRE(ka.intersects(kb) == a.intersects(b));
	REQUIRE(ka.isNull() == a.isNull()); REQUIRE((ka == kb) == (a == b));
	REQUIRE(ka.contains(ka)); REQUIRE(kb.intersects(kb));
	LD z = sizeOf<T>(a.center) + sizeOf<T>(a.extents) + sizeOf<T>(p), kd = 1;
	{ B x = ka, y = a; x.add(kp); y.add(p); LIKEV(x.center, y.center, k, z); LIKEV(x.extents, y.extents, k, z); }
	for (int i = 0; i < D; i++) kd *= k;
	LIKEV(ka.inf(), a.inf(), k, z); LIKEV(ka.sup(), a.sup(), k, z); LIKEV(ka.size(), a.size(), k, z);
	LIKE(T::measure(ka), T::measure(a), kd, fabsl(T::measure(a)));
	LIKE(T::inner(ka).radius, T::inner(a).radius, k, z); LIKE(T::outer(ka).radius, T::outer(a).radius, k, z);
	A x = boxK<T>(c); B f, g; f.set(x); g.set(scaleA<T>(x, k));
	SAMEB(g, scaleB<T>(f, k));
}
GEOLAW3(scaledSphere, 0.5)
{
	GEOTYPES;
	B a; a.center = vecK<T>(c); a.extents = vecK<T>(c);
	for (int i = 0; i < D; i++) T::at(a.extents, i) = std::abs(T::get(a.extents, i));
	S sp; sp.center = c.flip() ? a.center : vecK<T>(c); sp.radius = c.flip() ? a.innerSphere().radius : positive<Real>(c);
	Real k = pow2<Real>(c);
	SHOWB(a); c.show("centre", s(sp.center)); c.show("radius", sp.radius); SHOW(k);
	c.nontrivial(a.contains(sp) || k != 1);
	REQUIRE(scaleB<T>(a, k).contains(scaleS<T>(sp, k)) == a.contains(sp));
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	switch (c.draw(2))
	{
	case 0: { CAABB2<Real> a, b; equality<Real>(c, a, b, { &a.center.x, &a.center.y, &a.extents.x, &a.extents.y }, { &b.center.x, &b.center.y, &b.extents.x, &b.extents.y }); break; }
	default: { CAABB3<Real> a, b; equality<Real>(c, a, b, { &a.center.x, &a.center.y, &a.center.z, &a.extents.x, &a.extents.y, &a.extents.z }, { &b.center.x, &b.center.y, &b.center.z, &b.extents.x, &b.extents.y, &b.extents.z }); break; }
	}
}
