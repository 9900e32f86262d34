// C19: circles and spheres
#include "boxes.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C19";
const char* pbt::RULE = "circles and spheres of any size (radius zero included), points and partners at, just inside and just outside the touching distance, segments aimed at the ball, tangent to it, starting inside, ending short or pointing away, point lists packed and strided; "
	"non-trivial: positive radius and a general (not axis-aligned) configuration, or a touching one";

template <class T> static std::string ss(const typename T::S& b) { return "{" + s(b.center) + " r " + pbt::str(b.radius) + "}"; }
#define SHOWS(X) c.show(#X, ss<T>(X))
#define SAMES(X, Y) do { auto a_ = (X); auto b_ = (Y); c.nCompared++; if (!gen::sameV<T>(a_.center, b_.center) || !(a_.radius == b_.radius)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #X " = " + ss<T>(a_) + " differs from " #Y " = " + ss<T>(b_)); } while (0)

template <class T> static Num<typename T::Real> dist2(const NV<T>& a, const NV<T>& b)
{
	Num<typename T::Real> r(0);
	for (int i = 0; i < T::D; i++) { auto d = a.a[i] - b.a[i]; r += d * d; }
	return r;
}
template <class T> static LD dist(const typename T::V& a, const typename T::V& b)
{
	LD r = 0;
	for (int i = 0; i < T::D; i++) { LD d = LD(T::get(a, i)) - LD(T::get(b, i)); r += d * d; }
	return sqrtl(r);
}
// lattice directions of whole length, for exact touching
template <class T> static typename T::V lattice(Case& c, int& len)
{
	static const int t2[][3] = {{1, 0, 1}, {0, 1, 1}, {3, 4, 5}, {4, 3, 5}};
	static const int t3[][4] = {{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}, {3, 4, 0, 5}, {0, 3, 4, 5}, {4, 0, 3, 5}, {1, 2, 2, 3}, {2, 1, 2, 3}, {2, 2, 1, 3}, {2, 3, 6, 7}};
	typename T::V v = T::zero();
	if (T::D == 2) { const int* k = t2[c.draw(4)]; T::at(v, 0) = k[0]; T::at(v, 1) = k[1]; len = k[2]; }
	else { const int* k = t3[c.draw(10)]; for (int i = 0; i < 3; i++) T::at(v, i) = k[i]; len = k[3]; }
	for (int i = 0; i < T::D; i++) if (c.flip()) T::at(v, i) = -T::get(v, i);
	return v;
}
template <class T> static typename T::S anyBall(Case& c)
{
	typename T::S b;
	b.center = T::vec(c);
	b.radius = c.draw(12) == 11 ? typename T::Real(0) : positive<typename T::Real>(c);
	return b;
}

GEOLAW(points, 1)
{
	GEOTYPES;
	typedef Num<Real> N;
	Pools<Real> pool(c.flip());
	int n = gen::count(c, 1, 12, 70);
	std::vector<V> p;
	for (int i = 0; i < n; i++) { p.push_back(anyPoint<T>(c, pool)); c.show("point", s(p.back())); }
	auto m = packed<T>(p);
	Strided<T> st(c, p);
	c.nontrivial(n > 2);
	V lo = p[0], hi = p[0];
	for (auto& v : p) for (int i = 0; i < D; i++) { T::at(lo, i) = std::min(T::get(lo, i), T::get(v, i)); T::at(hi, i) = std::max(T::get(hi, i), T::get(v, i)); }
	NV<T> mid = perAxis<T>([&](int i) { return (N(T::get(lo, i)) + N(T::get(hi, i))) * N(0.5); });
	N far(0);
	for (auto& v : p) { N d = dist2<T>(nv<T>(v), mid); if (d.v > far.v) { LD e = std::max(far.e, d.e); far = d; far.e = e; } else far.e = std::max(far.e, d.e); }
	N rad = nsqrt(far);
	S junk; junk.center = T::zero(); for (int i = 0; i < D; i++) T::at(junk.center, i) = Real(9); junk.radius = Real(1e6);
	S k = junk; REQUIRE(&k.set(n, m.get()) == &k);
	NEARV(k.center, mid); NEAR(k.radius, rad);
	SAMES(S::from(n, m.get()), k);
	{ S j = junk; REQUIRE(&j.set(n, st.points(), st.stride) == &j); NEARV(j.center, mid); NEAR(j.radius, rad); SAMES(S::from(n, st.points(), st.stride), j); }
	// every point is inside or on it
	for (auto& v : p) REQUIREM(dist<T>(v, k.center) <= k.radius + 16 * rad.e + 16 * u * rad.v, "a source point is outside");
}

GEOLAW(basics, 1)
{
	GEOTYPES;
	typedef Num<Real> N;
	S a = anyBall<T>(c);
	V t = T::vec(c);
	Real k = c.oneIn(8) ? Real(std::fabs(divisor<Real>(c))) : positive<Real>(c, -4, 4);
	SHOWS(a); SHOWV(t); SHOW(k);
	c.nontrivial(a.radius > Real(0) && k != Real(1));
	const S a0 = a;
	SAMES(S(a.center, a.radius), a); SAMES(S::from(a.center, a.radius), a);
	{ S j; REQUIRE(&j.set(a.center, a.radius) == &j); SAMES(j, a); }
	S p = a + t, m = a - t, x = a * k, d = a / k;
	NEARV(p.center, perAxis<T>([&](int i) { return N(T::get(a.center, i)) + N(T::get(t, i)); })); SAME(p.radius, a.radius);
	NEARV(m.center, perAxis<T>([&](int i) { return N(T::get(a.center, i)) - N(T::get(t, i)); })); SAME(m.radius, a.radius);
	SAMEV(x.center, a.center); NEAR(x.radius, N(a.radius) * N(k));
	SAMEV(d.center, a.center); NEAR(d.radius, N(a.radius) / N(k));
	{ S j = a; REQUIRE(&(j += t) == &j); SAMES(j, p); }
	{ S j = a; REQUIRE(&(j -= t) == &j); SAMES(j, m); }
	{ S j = a; REQUIRE(&(j *= k) == &j); SAMES(j, x); }
	{ S j = a; REQUIRE(&(j /= k) == &j); SAMES(j, d); }
	{ S j = a; S e = a + V(a.center); j += j.center; SAMES(j, e); }
	{ S j = a; j -= j.center; SAMEV(j.center, T::zero()); SAME(j.radius, a.radius); }
	{ S j = a; j *= j.radius; SAMES(j, a * Real(a.radius)); }
	SAMES(a, a0);
	S b = a;
	REQUIRE(a == b); REQUIRE(!(a != b));
	if (c.flip()) { int ax = int(c.draw(D)); T::at(b.center, ax) += Real(1024); } else b.radius += Real(1024);
	REQUIRE(!(a == b)); REQUIRE(a != b);
	const S& ca = a;
	for (int i = 0; i < D; i++) { SAME(ca.data()[i], T::get(a.center, i)); REQUIRE(a.data() + i == &T::at(a.center, i)); }
	SAME(ca.data()[D], a.radius); REQUIRE(a.data() + D == &a.radius);
	auto f = a.template cast<float>(); auto g = a.template cast<double>();
	for (int i = 0; i < D; i++) { REQUIRE(Geo<float, T::D>::get(f.center, i) == float(T::get(a.center, i))); REQUIRE(Geo<double, T::D>::get(g.center, i) == double(T::get(a.center, i))); }
	REQUIRE(f.radius == float(a.radius)); REQUIRE(g.radius == double(a.radius));
	SAMEV(S::One.center, T::zero()); SAME(S::One.radius, Real(1));
}

GEOLAW(inside, 1.5)
{
	GEOTYPES;
	typedef Num<Real> N;
	S a = anyBall<T>(c);
	V p = T::vec(c);
	bool touch = false;
	if (c.draw(3) != 2)
	{
		// at a chosen multiple of the radius
		if (c.flip())
		{
			int len; V l = lattice<T>(c, len);
			Real k = Real(1 << c.draw(4)) / Real(4);
			for (int i = 0; i < D; i++) T::at(a.center, i) = grid<Real>(c, 20);
			a.radius = Real(len) * k;
			for (int i = 0; i < D; i++) T::at(p, i) = T::get(a.center, i) + T::get(l, i) * k;
			touch = true;
		}
		else
		{
			static const double ks[] = {0.5, 1, 2, 0.999, 1.001, 1.01, 0.99};
			V n = T::unit(c);
			Real k = Real(ks[c.draw(7)]) * a.radius;
			p = a.center + n * k;
		}
	}
	SHOWS(a); SHOWV(p);
	c.nontrivial(a.radius > Real(0));
	if (touch) { c.label("touching"); REQUIRE(a.contains(p)); S k = a; k.radius = std::nextafter(a.radius * Real(0.9999), Real(0)); REQUIRE(!k.contains(p)); }
	else
	{
		Margin<Real> m(false);
		m.all(N(a.radius) - nsqrt(dist2<T>(nv<T>(p), nv<T>(a.center))));
		DECIDE(a.contains(p), m);
	}
	REQUIRE(a.contains(a.center));
}

GEOLAW(pairs, 2)
{
	GEOTYPES;
	typedef Num<Real> N;
	S a = anyBall<T>(c), b = anyBall<T>(c);
	int touch = 0;
	switch (c.draw(5))
	{
	case 0: case 1:
	{
		// exact contact: outside (1) or inside (2)
		int len; V l = lattice<T>(c, len);
		Real k = Real(4 << c.draw(3)) / Real(4);
		for (int i = 0; i < D; i++) T::at(a.center, i) = grid<Real>(c, 20);
		for (int i = 0; i < D; i++) T::at(b.center, i) = T::get(a.center, i) + T::get(l, i) * k;
		Real d = Real(len) * k;
		if (c.flip()) { a.radius = d * Real(c.range(0, 4)) / Real(4); b.radius = d - a.radius; touch = 1; }
		else { b.radius = Real(c.range(0, 8)) / Real(4); a.radius = b.radius + d; touch = 2; }
		break;
	}
	case 2: { static const double ks[] = {0.5, 1, 2, 0.99, 1.01}; b.center = a.center + T::unit(c) * ((a.radius + b.radius) * Real(ks[c.draw(5)])); break; }
	case 3: { static const double ks[] = {0.5, 1, 2, 0.99, 1.01}; b.center = a.center + T::unit(c) * (std::abs(a.radius - b.radius) * Real(ks[c.draw(5)])); break; }
	default:;
	}
	SHOWS(a); SHOWS(b);
	c.nontrivial((a.radius > Real(0) && b.radius > Real(0)) || touch);
	N d2 = dist2<T>(nv<T>(a.center), nv<T>(b.center)), d = nsqrt(d2), sum = N(a.radius) + N(b.radius);
	Margin<Real> meet(touch != 0), in(touch != 0);
	if (touch) { meet.all(N(sum.v * sum.v - d2.v, 0)); in.all(N((LD(a.radius) - LD(b.radius)) - d.v, 0)); }
	else { N m = sum * sum - d2; meet.all(m); in.all((N(a.radius) - N(b.radius)) - d); }
	if (touch) c.label(touch == 1 ? "touching outside" : "touching inside");
	if (meet.verdict() == 0) c.label("apart"); else if (in.verdict() == 1) c.label("nested");
	DECIDE(a.intersects(b), meet);
	DECIDE(b.intersects(a), meet);
	DECIDE(a.contains(b), in);
	V hit = T::zero(); Real t = Real(-555);
	bool r = a.intersects(hit, t, b);
	DECIDE(r, meet);
	REQUIRE(r == a.intersects(b));
	if (r)
	{
		// how deep they overlap, and the point of the other's boundary facing this one
		NEAR(t, (sum - d).wide((sum.v + d.v) * u + d.e));
		if (d.v > 1e-4L * (1 + a.radius + b.radius) && d.v > 0)
		{
			NV<T> ref = perAxis<T>([&](int i) { N dl = N(T::get(a.center, i)) - N(T::get(b.center, i)); return N(T::get(b.center, i)) + dl / d * N(b.radius); });
			NEARV(hit, ref);
			LD tol = 64 * u * (1 + fabsl(dist<T>(b.center, T::zero())) + b.radius) ;
			REQUIREM(fabsl(dist<T>(hit, b.center) - b.radius) <= tol + 16 * ref.a[0].e + 16 * ref.a[1].e, "the hit point is off the other's boundary");
		}
	}
	REQUIRE(a.contains(a)); REQUIRE(a.intersects(a));
}

// a segment meets the ball where it enters it from outside
GEOLAW(lines, 3)
{
	GEOTYPES;
	typedef Num<Real> N;
	typedef Line3<Real> L;
	S a = anyBall<T>(c);
	V from = T::vec(c), to = T::vec(c);
	int exact = 0;
	switch (c.draw(6))
	{
	case 0: to = a.center; break;
	case 1: { // aimed at a point of the ball, from outside, overshooting or short
		static const double ks[] = {1, 2, 0.5, 4, 0.9, 8};
		V aim = a.center + T::unit(c) * (a.radius * unit01<Real>(c));
		to = from + (aim - from) * Real(ks[c.draw(6)]);
		break; }
	case 2: from = a.center + T::unit(c) * (a.radius * unit01<Real>(c)); break;
	case 3: { // passing by at a chosen distance
		V n = T::unit(c), q = T::vec(c);
		LD dt = 0; for (int i = 0; i < D; i++) dt += LD(T::get(n, i)) * T::get(q, i);
		V along = q - n * Real(dt);
		static const double ks[] = {0.5, 0.9, 1.1, 0.99, 1.01, 0};
		V at = a.center + n * (a.radius * Real(ks[c.draw(6)]));
		from = at - along * Real(1 + c.draw(4)); to = at + along * Real(c.draw(4));
		break; }
	case 4: { // axis-parallel with exact coordinates: entry, tangent, start on the boundary
		exact = 1;
		for (int i = 0; i < D; i++) { T::at(a.center, i) = grid<Real>(c, 10); }
		a.radius = Real(1 << c.draw(3));
		int ax = int(c.draw(D)), o = (ax + 1 + int(c.draw(D - 1))) % D;
		from = a.center; to = a.center;
		if (c.flip()) { T::at(from, o) += a.radius; T::at(to, o) += a.radius; exact = 2; }
		Real sgn = c.flip() ? Real(-1) : Real(1);
		int q = c.range(0, 4), w = c.range(1, 8);
		T::at(from, ax) -= sgn * a.radius * Real(q); T::at(to, ax) = T::get(from, ax) + sgn * a.radius * Real(w);
		break; }
	default:;
	}
	L line;
	V hz = T::zero();
	(void)hz;
	Vec3<Real> f3, t3;
	if (T::D == 2)
	{
		// circles look at the first two coordinates only
		Real z1 = c.flip() ? Real(0) : real<Real>(c), z2 = c.flip() ? z1 : real<Real>(c);
		f3 = Vec3<Real>(T::get(from, 0), T::get(from, 1), z1); t3 = Vec3<Real>(T::get(to, 0), T::get(to, 1), z2);
	}
	else { f3 = Vec3<Real>(T::get(from, 0), T::get(from, 1), T::get(from, D - 1)); t3 = Vec3<Real>(T::get(to, 0), T::get(to, 1), T::get(to, D - 1)); }
	line = L::from(f3, t3);
	SHOWS(a); c.show("start", s(line.start)); c.show("end", s(line.end));
	NV<T> df = perAxis<T>([&](int i) { return N(T::get(to, i)) - N(T::get(from, i)); });
	NV<T> cf = perAxis<T>([&](int i) { return N(T::get(from, i)) - N(T::get(a.center, i)); });
	N A2(0), B2(0), C2(0);
	int dirs = 0;
	for (int i = 0; i < D; i++) { A2 += df.a[i] * df.a[i]; B2 += df.a[i] * cf.a[i]; C2 += cf.a[i] * cf.a[i]; if (df.a[i].v != 0) dirs++; }
	c.nontrivial(a.radius > Real(0) && dirs > 1);
	V hit = T::zero(); Real t = Real(-555);
	V hit2 = T::zero(); Real t2 = Real(-555);
	bool r0 = a.intersects(line), r1 = a.intersects(hit, t, line), r2 = a.hits(hit2, t2, line);
	REQUIRE(r0 == r1); REQUIRE(r1 == r2);
	if (r1) { SAMEV(hit, hit2); SAME(t, t2); }
	if (A2.v == 0) { c.label("no length"); REQUIRE(!r0); return; }
	N disc = B2 * B2 - A2 * (C2 - N(a.radius) * N(a.radius));
	N x;
	Margin<Real> m(false);
	if (exact)
	{
		// decided without rounding
		c.label(exact == 2 ? "tangent" : "along a diameter");
		LD xv = (-B2.v - sqrtl(disc.v)) / A2.v;
		x = N(xv, 4 * u * (1 + fabsl(xv)));
		if (disc.v < 0 || xv < 0 || xv > 1) m.no = true;
		// dividing may round near 1, never across 0
		if (fabsl(xv - 1) < 4 * u && xv != 1) m.sure = false;
	}
	else
	{
		m.all(disc);
		if (disc.v > 0) { x = (-B2 - nsqrt(disc)) / A2; m.all(x); m.all(N(1) - x); }
		else if (m.verdict() != 0) m.sure = false;
	}
	if (m.verdict() == 1) c.label("entered");
	if (dist<T>(from, a.center) < a.radius) c.label("start inside");
	DECIDE(r1, m);
	if (r1)
	{
		REQUIRE(t >= Real(0)); REQUIRE(t <= Real(1));
		if (m.verdict() == 1)
		{
			NEAR(t, x);
			// the point named is the point at that parameter
			NEARV(hit, perAxis<T>([&](int i) { return N(T::get(from, i)) + df.a[i] * x; }));
			// it is on the boundary, and nothing before it is inside
			LD len = sqrtl(A2.v), tol = 16 * (x.e * len + 8 * u * (dist<T>(from, T::zero()) + dist<T>(a.center, T::zero()) + len + a.radius));
			REQUIREM(fabsl(dist<T>(hit, a.center) - a.radius) <= tol, "the hit point is off the boundary by " + pbt::str(fabsl(dist<T>(hit, a.center) - a.radius)));
			Real w = unit01<Real>(c) * t;
			V q = T::zero(); for (int i = 0; i < D; i++) T::at(q, i) = T::get(from, i) + Real(df.a[i].v) * w;
			REQUIREM(dist<T>(q, a.center) >= a.radius - tol, "already inside before the hit");
		}
	}
	else if (dist<T>(from, a.center) > a.radius * (1 + 1e-3L) && !exact && m.verdict() == 0)
	{
		// a start outside that never enters: no point of the segment is inside
		LD tc = -B2.v / A2.v; if (tc < 0) tc = 0; if (tc > 1) tc = 1;
		LD d2 = C2.v + 2 * tc * B2.v + tc * tc * A2.v;
		REQUIREM(d2 >= LD(a.radius) * a.radius * (1 - 1e-3L) - 64 * u * (C2.v + A2.v), "passes through the inside unnoticed");
	}
}

// at any size the answers are the same
GEOLAW(scaled, 1.5)
{
	GEOTYPES;
	typedef Line3<Real> L;
	S a, b;
	a.center = vecK<T>(c); b.center = vecK<T>(c); a.radius = positive<Real>(c); b.radius = c.draw(8) == 7 ? Real(0) : positive<Real>(c);
	V p = c.flip() ? a.center + b.center * a.radius : vecK<T>(c), q = c.flip() ? a.center + T::unit(c) * (a.radius * unit01<Real>(c)) : vecK<T>(c);
	if (c.draw(3) == 0) b.center = a.center + T::unit(c) * ((a.radius + b.radius) * Real(0.75));
	Real k = pow2<Real>(c);
	SHOWS(a); SHOWS(b); SHOWV(p); SHOWV(q); SHOW(k);
	S ka = scaleS<T>(a, k), kb = scaleS<T>(b, k);
	V kp = scaleV<T>(p, k), kq = scaleV<T>(q, k);
	REQUIRE(ka.contains(kp) == a.contains(p)); REQUIRE(ka.contains(kb) == a.contains(b)); REQUIRE(ka.intersects(kb) == a.intersects(b));
	LD z = sizeOf<T>(a.center) + sizeOf<T>(b.center) + a.radius + b.radius + sizeOf<T>(p) + sizeOf<T>(q);
	// fourth powers of the sizes have to be representable
	if (sizeof(Real) == 4 && !(z < 1e8L && z * k < 1e8L)) pbt::discard();
	V h = T::zero(), kh = T::zero(); Real t = 0, kt = 0;
	bool r = a.intersects(h, t, b);
	REQUIRE(ka.intersects(kh, kt, kb) == r);
	if (r) { LIKE(kt, t, k, z); LIKEV(kh, h, k, z); }
	auto to3 = [](const V& v, Real w) { return Vec3<Real>(T::get(v, 0), T::get(v, 1), T::D == 2 ? w : T::get(v, T::D - 1)); };
	L l = L::from(to3(p, 1), to3(q, 2)), kl = L::from(to3(kp, k), to3(kq, k * 2));
	bool e = a.intersects(l);
	REQUIRE(ka.intersects(kl) == e); REQUIRE(a.hits(h, t, l) == e); REQUIRE(ka.hits(kh, kt, kl) == e);
	if (e) { LIKE(kt, t, 1, 1); LIKEV(kh, h, k, z); }
	c.nontrivial(k != 1 && (r || e));
	V pts[3] = {p, q, a.center}, kpts[3] = {kp, kq, ka.center};
	S s1 = S::from(3, pts), s2 = S::from(3, kpts);
	LIKEV(s2.center, s1.center, k, z); LIKE(s2.radius, s1.radius, k, z);
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	switch (c.draw(2))
	{
	case 0: { Circle<Real> a, b; equality<Real>(c, a, b, { &a.center.x, &a.center.y, &a.radius }, { &b.center.x, &b.center.y, &b.radius }); break; }
	default: { Sphere<Real> a, b; equality<Real>(c, a, b, { &a.center.x, &a.center.y, &a.center.z, &a.radius }, { &b.center.x, &b.center.y, &b.center.z, &b.radius }); break; }
	}
}
