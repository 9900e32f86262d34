// C20: planes
#include "boxes.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C20";
const char* pbt::RULE = "planes of general position and orientation at any distance from the origin, built in every way; points, directions, rays and segments on either side, on the plane, parallel to it, pointing away or ending short, spheres about the touching distance, triples of planes including parallel ones; "
	"non-trivial: the plane is off the origin and its normal is not along an axis";

template <class R> static std::string sp(const Plane<R>& p) { return "{" + s(p.normal) + " d " + pbt::str(p.d) + "}"; }
#define SHOWP(X) c.show(#X, sp(X))
#define SAMEP(X, Y) do { auto a_ = (X); auto b_ = (Y); c.nCompared++; if (!(a_.normal.x == b_.normal.x && a_.normal.y == b_.normal.y && a_.normal.z == b_.normal.z && a_.d == b_.d)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #X " = " + sp(a_) + " differs from " #Y " = " + sp(b_)); } while (0)

template <class R> static Plane<R> anyPlane(Case& c)
{
	Plane<R> p;
	p.normal = unit3<R>(c);
	p.d = c.draw(5) == 0 ? R(0) : real<R>(c, -5, 5);
	return p;
}
template <class R> static bool general(const Plane<R>& p)
{
	int n = (p.normal.x != 0) + (p.normal.y != 0) + (p.normal.z != 0);
	return n > 1 && p.d != 0;
}
template <class R> static Num<R> height(const Plane<R>& p, const Vec3<R>& v) { return dot(V3<R>(v), V3<R>(p.normal)) - Num<R>(p.d); }
// a point at a chosen height over the plane
template <class R> static Vec3<R> pointAbove(Case& c, const Plane<R>& p, R h)
{
	Vec3<R> q = vec3<R>(c, -4, 4);
	LD t = LD(q.x) * p.normal.x + LD(q.y) * p.normal.y + LD(q.z) * p.normal.z - p.d - h;
	return Vec3<R>(R(q.x - p.normal.x * t), R(q.y - p.normal.y * t), R(q.z - p.normal.z * t));
}
template <class R> static Vec3<R> tangent(Case& c, const Plane<R>& p)
{
	Vec3<R> q = vec3<R>(c, -3, 3);
	LD t = LD(q.x) * p.normal.x + LD(q.y) * p.normal.y + LD(q.z) * p.normal.z;
	return Vec3<R>(R(q.x - p.normal.x * t), R(q.y - p.normal.y * t), R(q.z - p.normal.z * t));
}
template <class R> static Num<R> len2(V3<R> v) { return dot(v, v); }

LAW(built, 1.5)
{
	typedef Plane<Real> P; typedef Num<Real> N;
	Vec3<Real> n = nonzero3<Real>(c, -4, 4), q = vec3<Real>(c, -5, 5);
	Real d = real<Real>(c, -5, 5);
	SHOWV(n); SHOWV(q); SHOW(d);
	c.nontrivial((n.x != 0) + (n.y != 0) + (n.z != 0) > 1);
	N l = length(V3<Real>(n));
	V3<Real> un(N(n.x) / l, N(n.y) / l, N(n.z) / l);
	// normal of any length, distance from the origin
	{
		P p = P::from(n, d);
		NEAR3(p.normal, un); SAME(p.d, d);
		P k; REQUIRE(&k.set(n, d) == &k); SAMEP(k, p);
		// the constructor takes them as they are
		P r(n, d); SAME3(r.normal, n); SAME(r.d, d);
	}
	// point and normal: goes through the point
	{
		P p = P::from(q, n);
		NEAR3(p.normal, un); NEAR(p.d, dot(un, V3<Real>(q)));
		CLOSE(p.distance(q), 0, 16 * Num<Real>::u() * (fabsl(q.x) + fabsl(q.y) + fabsl(q.z)) + 1e-30L);
		P k; REQUIRE(&k.set(q, n) == &k); SAMEP(k, p);
	}
	// point and two tangents
	Vec3<Real> a = vec3<Real>(c, -4, 4), b = vec3<Real>(c, -4, 4);
	SHOWV(a); SHOWV(b);
	V3<Real> x = cross(V3<Real>(a), V3<Real>(b));
	N xl = length(x);
	if (xl.v > 64 * xl.e && xl.v > 1e-4L)
	{
		c.label("tangents");
		V3<Real> ux(x.x / xl, x.y / xl, x.z / xl);
		P p = P::fromPointAndTangents(q, a, b);
		NEAR3(p.normal, ux); NEAR(p.d, dot(ux, V3<Real>(q)));
		P k; REQUIRE(&k.setFromPointAndTangents(q, a, b) == &k); SAMEP(k, p);
	}
	// three points: through all of them, their winding counter-clockwise seen from the front
	Vec3<Real> r1 = q + a, r2 = q + b;
	V3<Real> y = cross(V3<Real>(r1) - V3<Real>(q), V3<Real>(r2) - V3<Real>(q));
	N yl = length(y);
	if (yl.v > 64 * yl.e && yl.v > 1e-4L)
	{
		c.label("three points");
		V3<Real> uy(y.x / yl, y.y / yl, y.z / yl);
		P p = P::from(q, r1, r2);
		NEAR3(p.normal, uy); NEAR(p.d, dot(uy, V3<Real>(q)));
		P k; REQUIRE(&k.set(q, r1, r2) == &k); SAMEP(k, p);
		for (const Vec3<Real>* v : {&q, &r1, &r2}) NEAR(p.distance(*v), (dot(uy, V3<Real>(*v)) - dot(uy, V3<Real>(q))));
		// swapping two points turns it over
		P o = P::from(q, r2, r1); NEAR3(o.normal, uy * N(-1));
		// any of the points may come first
		V3<Real> z = cross(V3<Real>(r2) - V3<Real>(r1), V3<Real>(q) - V3<Real>(r1));
		N zl = length(z);
		P m = P::from(r1, r2, q); NEAR3(m.normal, V3<Real>(z.x / zl, z.y / zl, z.z / zl));
	}
}

LAW(moves, 1)
{
	typedef Plane<Real> P; typedef Num<Real> N;
	P p = anyPlane<Real>(c);
	Real k = real<Real>(c, -4, 4);
	Vec3<Real> q = vec3<Real>(c, -4, 4);
	SHOWP(p); SHOW(k); SHOWV(q);
	c.nontrivial(general(p) && k != 0);
	const P p0 = p;
	N h = height(p, q);
	NEAR(p.distance(q), h);
	P m = p.moved(k), f = p.flipped();
	SAME3(m.normal, p.normal); NEAR(m.d, N(p.d) + N(k)); NEAR(m.distance(q), h - N(k));
	SAME3(f.normal, -p.normal); SAME(f.d, -p.d); NEAR(f.distance(q), -h);
	{ P x = p; REQUIRE(&x.move(k) == &x); SAMEP(x, m); x.move(-k); NEAR(x.d, N(p.d).wide(4 * Num<Real>::u() * (fabsl(p.d) + fabsl(k)))); }
	{ P x = p; REQUIRE(&x.flip() == &x); SAMEP(x, f); x.flip(); SAMEP(x, p); }
	{ P x = P::from(p, k); SAMEP(x, m); P y; REQUIRE(&y.set(p, k) == &y); SAMEP(y, m); P z = p; z.set(z, k); SAMEP(z, m); }
	SAMEP(p, p0);
	REQUIRE(p == p0); REQUIRE(!(p != p0));
	{
		P x = p;
		switch (c.draw(4)) { case 0: x.normal.x += 1; break; case 1: x.normal.y += 1; break; case 2: x.normal.z += 1; break; default: x.d += Real(64); }
		REQUIRE(!(x == p)); REQUIRE(x != p);
	}
	const P& cp = p;
	SAME(cp.data()[0], p.normal.x); SAME(cp.data()[1], p.normal.y); SAME(cp.data()[2], p.normal.z); SAME(cp.data()[3], p.d);
	REQUIRE(p.data() == &p.normal.x);
	auto pf = p.template cast<float>(); auto pd = p.template cast<double>();
	SAME(pf.normal.x, float(p.normal.x)); SAME(pf.normal.y, float(p.normal.y)); SAME(pf.normal.z, float(p.normal.z)); SAME(pf.d, float(p.d));
	SAME(pd.normal.x, double(p.normal.x)); SAME(pd.normal.y, double(p.normal.y)); SAME(pd.normal.z, double(p.normal.z)); SAME(pd.d, double(p.d));
	SAMEP(P::XY, P(Vec3<Real>(0, 0, 1), 0)); SAMEP(P::YZ, P(Vec3<Real>(1, 0, 0), 0)); SAMEP(P::ZX, P(Vec3<Real>(0, 1, 0), 0));
}

LAW(points, 2)
{
	typedef Plane<Real> P; typedef Num<Real> N;
	LD u = Num<Real>::u();
	P p = anyPlane<Real>(c);
	Real h = c.draw(4) == 0 ? Real(0) : real<Real>(c, -4, 4);
	Vec3<Real> q = c.flip() ? pointAbove(c, p, h) : vec3<Real>(c, -5, 5);
	SHOWP(p); SHOWV(q);
	c.nontrivial(general(p));
	N d = height(p, q);
	if (d.v > 0) c.label("front"); else c.label("back");
	NEAR(p.distance(q), d);
	// perpendicular projection
	Vec3<Real> pr = nonzero3<Real>(c);
	Real t = p.project(pr, q);
	NEAR(t, d);
	V3<Real> foot = V3<Real>(q) - V3<Real>(p.normal) * d;
	NEAR3(pr, foot);
	LD size = fabsl(q.x) + fabsl(q.y) + fabsl(q.z) + fabsl(p.d);
	CLOSE(Real(height(p, pr).v), 0, 32 * u * (size + fabsl(d.v)));
	{ Vec3<Real> k = q; Real t2 = p.project(k, k); SAME3(k, pr); SAME(t2, t); }
	// within a tolerance
	Real tol = c.flip() ? std::abs(Real(d.v)) * Real(c.flip() ? 1.01 : 0.99) : positive<Real>(c, -4, 4);
	SHOW(tol);
	Margin<Real> m(false); m.all(N(tol) - nabs(d));
	DECIDE(p.contains(q, tol), m);
	// along a direction
	Vec3<Real> dir = c.draw(5) == 0 ? tangent(c, p) : vec3<Real>(c, -3, 3);
	SHOWV(dir);
	N f = dot(V3<Real>(dir), V3<Real>(p.normal));
	Vec3<Real> o(Real(-77), Real(-77), Real(-77));
	bool r = p.project(o, q, dir);
	if (fabsl(f.v) > 16 * f.e)
	{
		REQUIRE(r);
		N k = d / f;
		V3<Real> ref = V3<Real>(q) - V3<Real>(dir) * k;
		NEAR3(o, ref);
		if (!k.bad()) NEAR(Real(height(p, o).v), N(0, ref.x.e + ref.y.e + ref.z.e + u * (fabsl(o.x) + fabsl(o.y) + fabsl(o.z) + fabsl(p.d))));
		{ Vec3<Real> a = q; REQUIRE(p.project(a, a, dir)); SAME3(a, o); }
		{ Vec3<Real> a = dir; REQUIRE(p.project(a, q, a)); SAME3(a, o); }
	}
	else if (f.v == 0 && f.e == 0) { c.label("parallel"); REQUIRE(!r); }
	// moving only along the normal changes the distance by as much
	Vec3<Real> up = q + p.normal * Real(2);
	NEAR(p.distance(up), N(d.v + 2 * (LD(p.normal.x) * p.normal.x + LD(p.normal.y) * p.normal.y + LD(p.normal.z) * p.normal.z), d.e + u * (size + 4)));
}

LAW(rays, 1.5)
{
	typedef Plane<Real> P; typedef Num<Real> N;
	P p = anyPlane<Real>(c);
	Ray3<Real> ray;
	bool exact = false;
	switch (c.draw(4))
	{
	case 0: { // exactly on an axis plane, exactly parallel
		exact = true;
		int ax = int(c.draw(3)); p.normal = Vec3<Real>(Real(ax == 0), Real(ax == 1), Real(ax == 2)); if (c.flip()) p.normal = -p.normal;
		p.d = grid<Real>(c, 4);
		ray.start = Vec3<Real>(grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4));
		ray.direction = Vec3<Real>(0, 0, 0); static const int sg[] = {1, -1}; Geo<Real, 3>::at(ray.direction, int(c.draw(3))) = Real(sg[c.draw(2)]);
		break; }
	default:
		ray = Ray3<Real>::from(c.flip() ? pointAbove(c, p, real<Real>(c, -3, 3)) : vec3<Real>(c, -4, 4), nonzero3<Real>(c, -3, 3));
	}
	SHOWP(p); SHOWV(ray.start); SHOWV(ray.direction);
	c.nontrivial(general(p) || exact);
	N sd = height(p, ray.start), nd = dot(V3<Real>(p.normal), V3<Real>(ray.direction));
	if (exact) { sd.e = 0; nd.e = 0; }
	N t = -sd / nd;
	// meets the plane: not parallel, and not behind the start
	Margin<Real> meet(exact), hit(exact);
	if (exact) { if (nd.v == 0) { meet.no = hit.no = true; } else { if (t.v < 0) meet.no = hit.no = true; if (nd.v > 0) hit.no = true; } }
	else
	{
		bool par = fabsl(nd.v) <= 16 * nd.e;
		if (par) { meet.sure = hit.sure = false; }
		else { meet.all(t); hit.all(t); hit.all(-nd); }
	}
	if (hit.verdict() == 1) c.label("from the front"); else if (meet.verdict() == 1) c.label("from behind"); else if (meet.verdict() == 0) c.label("missed");
	for (int which = 0; which < 2; which++)
	{
		Vec3<Real> h(Real(-77), Real(-77), Real(-77)); Real x = Real(-77);
		bool r = which ? p.hits(h, x, ray) : p.intersects(h, x, ray);
		if (which) DECIDE(r, hit); else DECIDE(r, meet);
		if (r && meet.verdict() == 1)
		{
			REQUIRE(x >= Real(0));
			NEAR(x, t);
			NEAR3(h, V3<Real>(ray.start) + V3<Real>(ray.direction) * t);
		}
	}
}

LAW(segments, 2)
{
	typedef Plane<Real> P; typedef Num<Real> N;
	P p = anyPlane<Real>(c);
	Line3<Real> l;
	bool exact = false;
	if (c.draw(3) == 0)
	{
		// ends exactly on, in front of or behind an axis plane
		exact = true;
		int ax = int(c.draw(3)); p.normal = Vec3<Real>(Real(ax == 0), Real(ax == 1), Real(ax == 2)); if (c.flip()) p.normal = -p.normal;
		p.d = grid<Real>(c, 3);
		l = Line3<Real>::from(Vec3<Real>(grid<Real>(c, 3), grid<Real>(c, 3), grid<Real>(c, 3)), Vec3<Real>(grid<Real>(c, 3), grid<Real>(c, 3), grid<Real>(c, 3)));
	}
	else if (c.flip()) l = Line3<Real>::from(pointAbove(c, p, real<Real>(c, -3, 3)), pointAbove(c, p, real<Real>(c, -3, 3)));
	else l = Line3<Real>::from(vec3<Real>(c, -4, 4), vec3<Real>(c, -4, 4));
	Real radius = exact ? Real(c.range(0, 2)) : c.flip() ? Real(0) : positive<Real>(c, -3, 2);
	SHOWP(p); SHOWV(l.start); SHOWV(l.end); SHOW(radius);
	c.nontrivial(general(p) || exact);
	N sd = height(p, l.start), ed = height(p, l.end);
	if (exact) { sd.e = ed.e = 0; c.label("exact"); }
	// any crossing or touching, but not lying in or along the plane
	{
		int v = -1;
		if (exact) v = (sd.v != ed.v) && !(sd.v < 0 && ed.v < 0) && !(sd.v > 0 && ed.v > 0);
		else if (fabsl(sd.v) > 16 * sd.e && fabsl(ed.v) > 16 * ed.e) v = (sd.v < 0) != (ed.v < 0);
		Vec3<Real> h(Real(-77), Real(-77), Real(-77)); Real x = Real(-77);
		bool r = p.intersects(h, x, l);
		if (v >= 0) REQUIRE(r == (v == 1)); else c.skipped();
		if (v == 1)
		{
			c.label("crossing");
			REQUIRE(x >= Real(0)); REQUIRE(x <= Real(1));
			N t = sd / (sd - ed);
			NEAR(x, t);
			V3<Real> w = V3<Real>(l.end) - V3<Real>(l.start);
			NEAR3(h, V3<Real>(l.start) + w * t);
		}
	}
	// passing from the front to the back, of the plane itself and of the plane `radius` in front
	for (int which = 0; which < 2; which++)
	{
		Real rr = which ? radius : Real(0);
		N s1 = sd - N(rr), e1 = ed - N(rr);
		if (exact) s1.e = e1.e = 0;
		int v = -1;
		if (exact) v = s1.v >= 0 && e1.v < 0;
		else if (fabsl(s1.v) > 16 * s1.e && fabsl(e1.v) > 16 * e1.e) v = s1.v > 0 && e1.v < 0;
		Vec3<Real> h(Real(-77), Real(-77), Real(-77)); Real x = Real(-77);
		bool r = which ? p.hits(h, x, l, radius) : p.hits(h, x, l);
		if (v >= 0) REQUIRE(r == (v == 1)); else c.skipped();
		if (v == 1)
		{
			c.label(which ? "hit at a distance" : "hit");
			REQUIRE(x >= Real(0)); REQUIRE(x <= Real(1));
			N t = s1 / (s1 - e1);
			NEAR(x, t);
			V3<Real> w = V3<Real>(l.end) - V3<Real>(l.start);
			NEAR3(h, V3<Real>(l.start) + w * t);
		}
	}
}

LAW(spheres, 1)
{
	typedef Plane<Real> P; typedef Num<Real> N;
	P p = anyPlane<Real>(c);
	Sphere<Real> q;
	bool exact = c.draw(3) == 0;
	if (exact)
	{
		int ax = int(c.draw(3)); p.normal = Vec3<Real>(Real(ax == 0), Real(ax == 1), Real(ax == 2)); if (c.flip()) p.normal = -p.normal;
		p.d = grid<Real>(c, 4);
		q.center = Vec3<Real>(grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4));
		q.radius = Real(c.range(0, 4));
	}
	else
	{
		q.radius = positive<Real>(c, -4, 4);
		static const double ks[] = {1.01, 0.99, 0.5, -0.5, -0.99, -1.01, 2, -2, 0.01, -0.01};
		q.center = c.flip() ? pointAbove(c, p, Real(q.radius * Real(ks[c.draw(10)]))) : vec3<Real>(c, -4, 4);
	}
	SHOWP(p); c.show("centre", s(q.center)); c.show("radius", q.radius);
	c.nontrivial(general(p) || exact);
	N d = height(p, q.center);
	if (exact) d.e = 0;
	N top = N(q.radius) - d, bottom = d + N(q.radius);
	if (exact) top.e = bottom.e = 0;
	Margin<Real> meet(exact), hit(exact);
	meet.all(top); meet.all(bottom); hit.all(top); hit.all(d);
	for (int which = 0; which < 2; which++)
	{
		Real depth = Real(-77);
		bool r = which ? p.hits(depth, q) : p.intersects(depth, q);
		if (which) DECIDE(r, hit); else DECIDE(r, meet);
		if (r && meet.verdict() == 1) { c.label(which ? "hit" : "meeting"); NEAR(depth, top); }
	}
}

LAW(three, 1)
{
	typedef Plane<Real> P; typedef Num<Real> N;
	P p[3];
	for (int i = 0; i < 3; i++) p[i] = anyPlane<Real>(c);
	int kind = int(c.draw(4));
	if (kind == 1) { int a = int(c.draw(3)), b = (a + 1 + int(c.draw(2))) % 3; p[b].normal = c.flip() ? -p[a].normal : p[a].normal; }
	if (kind == 2)
	{
		// three planes along one direction
		Real t = angle<Real>(c);
		p[2].normal = (p[0].normal * Real(cosl(t)) + p[1].normal * Real(sinl(t))).normalized();
	}
	SHOWP(p[0]); SHOWP(p[1]); SHOWP(p[2]);
	V3<Real> n0(p[0].normal), n1(p[1].normal), n2(p[2].normal);
	N det = dot(cross(n0, n1), n2);
	c.nontrivial(general(p[0]) && general(p[1]) && general(p[2]));
	Vec3<Real> o(Real(-77), Real(-77), Real(-77));
	bool r = P::intersectAtSinglePoint(o, p[0], p[1], p[2]);
	// planes whose normals span less than 1e-4 count as having no single point
	if (fabsl(det.v) > 1.01e-4L + 16 * det.e)
	{
		c.label("one point");
		REQUIRE(r);
		V3<Real> ref = cross(n1, n2) * N(p[0].d) + cross(n2, n0) * N(p[1].d) + cross(n0, n1) * N(p[2].d);
		ref = V3<Real>(ref.x / det, ref.y / det, ref.z / det);
		NEAR3(o, ref);
		// on all three
		for (int i = 0; i < 3; i++)
		{
			LD e = 16 * (ref.x.e + ref.y.e + ref.z.e) + 16 * Num<Real>::u() * (fabsl(p[i].d) + fabsl(o.x) + fabsl(o.y) + fabsl(o.z));
			CLOSE(Real(height(p[i], o).v), 0, e);
		}
		// in whichever order
		Vec3<Real> o2; REQUIRE(P::intersectAtSinglePoint(o2, p[1], p[2], p[0])); NEAR3(o2, ref);
		Vec3<Real> o3; REQUIRE(P::intersectAtSinglePoint(o3, p[1], p[0], p[2])); NEAR3(o3, ref);
	}
	else if (fabsl(det.v) < 0.99e-4L - 16 * det.e) { c.label("no single point"); REQUIRE(!r); SAME3(o, Vec3<Real>(0, 0, 0)); }
}

// a scene of whole numbers a power of two smaller or larger, even very much so, is answered as at its own size
LAW(faint, 1)
{
	typedef Plane<Real> P;
	int deep = sizeof(Real) == 4 ? 100 : 900, e = int(c.range(-deep, deep));
	Real k = std::ldexp(Real(1), e);
	P p; int ax = int(c.draw(3)); p.normal = Vec3<Real>(Real(ax == 0), Real(ax == 1), Real(ax == 2)); if (c.flip()) p.normal = -p.normal;
	p.d = grid<Real>(c, 3);
	Vec3<Real> a(grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4)), b(grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4)), h(0, 0, 0), kh(0, 0, 0);
	Real rad = Real(c.range(0, 4)), t = 0, kt = 0;
	c.show("exponent", e); SHOWP(p); SHOWV(a); SHOWV(b); SHOW(rad);
	c.nontrivial(e < -40 || e > 40);
	P q(p.normal, p.d * k);
	Vec3<Real> ka = a * k, kb = b * k;
	SAME(q.distance(ka), p.distance(a) * k);
	SAME(q.project(kh, ka), p.project(h, a) * k); SAME3(kh, h * k);
	REQUIRE(q.contains(ka, rad * k) == p.contains(a, rad));
	Ray3<Real> l, kl; l.start = a; kl.start = ka; l.direction = kl.direction = Vec3<Real>(grid<Real>(c, 2), grid<Real>(c, 2), grid<Real>(c, 2));
	for (int w = 0; w < 2; w++)
	{
		bool r = w ? p.hits(h, t, l) : p.intersects(h, t, l);
		REQUIRE((w ? q.hits(kh, kt, kl) : q.intersects(kh, kt, kl)) == r);
		if (r) { c.label("ray"); SAME(kt, t * k); SAME3(kh, h * k); }
	}
	Line3<Real> m = Line3<Real>::from(a, b), km = Line3<Real>::from(ka, kb);
	for (int w = 0; w < 3; w++)
	{
		bool r = w == 0 ? p.intersects(h, t, m) : w == 1 ? p.hits(h, t, m) : p.hits(h, t, m, rad);
		REQUIRE((w == 0 ? q.intersects(kh, kt, km) : w == 1 ? q.hits(kh, kt, km) : q.hits(kh, kt, km, rad * k)) == r);
		if (r)
		{
			c.label("segment");
			LD u = Num<Real>::u();
			CLOSE(kt, t, 16 * u);
			for (int i = 0; i < 3; i++) CLOSE((Real(Geo<Real, 3>::at(kh, i) / k)), (Geo<Real, 3>::at(h, i)), 256 * u);
		}
	}
	Sphere<Real> sp(a, rad), ks(ka, rad * k);
	bool r = p.intersects(t, sp); REQUIRE(q.intersects(kt, ks) == r); if (r) SAME(kt, t * k);
	r = p.hits(t, sp); REQUIRE(q.hits(kt, ks) == r); if (r) SAME(kt, t * k);
}

// at any size the answers are the same
LAW(scaled, 1)
{
	typedef Plane<Real> P; typedef Geo<Real, 3> T;
	P p = anyPlane<Real>(c);
	Real k = pow2<Real>(c);
	Vec3<Real> a = c.flip() ? pointAbove(c, p, real<Real>(c, -3, 3)) : vecK<T>(c), b = vecK<T>(c), o = vecK<T>(c);
	Real rad = positive<Real>(c);
	SHOWP(p); SHOW(k); SHOWV(a); SHOWV(b); SHOWV(o); SHOW(rad);
	P q(p.normal, p.d * k);
	Vec3<Real> ka = a * k, kb = b * k, ko = o * k, h(0, 0, 0), kh(0, 0, 0);
	Real t = 0, kt = 0;
	LD z = fabsl(p.d) + sizeOf<T>(a) + sizeOf<T>(b) + sizeOf<T>(o) + rad;
	LIKE(q.distance(ka), p.distance(a), k, z);
	LIKE(q.project(kh, ka), p.project(h, a), k, z); LIKEV(kh, h, k, z);
	REQUIRE(q.contains(ka, rad * k) == p.contains(a, rad));
	bool any = false;
	{
		Vec3<Real> d = b - a;
		bool r = p.project(h, a, d); REQUIRE(q.project(kh, ka, d) == r);
		LD f = fabsl(LD(d.x) * p.normal.x + LD(d.y) * p.normal.y + LD(d.z) * p.normal.z), y = z * (1 + sizeOf<T>(d) / f);
		if (r && f > 0) LIKEV(kh, h, k, y);
		Ray3<Real> l; l.start = a; l.direction = d;
		Ray3<Real> kl; kl.start = ka; kl.direction = d;
		for (int w = 0; w < 2; w++)
		{
			bool e = w ? p.hits(h, t, l) : p.intersects(h, t, l);
			REQUIRE((w ? q.hits(kh, kt, kl) : q.intersects(kh, kt, kl)) == e);
			if (e && f > 0) { LIKE(kt, t, k, fabsl(t)); LIKEV(kh, h, k, y); any = true; }
		}
	}
	{
		Line3<Real> l = Line3<Real>::from(a, b), kl = Line3<Real>::from(ka, kb);
		for (int w = 0; w < 3; w++)
		{
			bool e = w == 0 ? p.intersects(h, t, l) : w == 1 ? p.hits(h, t, l) : p.hits(h, t, l, rad);
			REQUIRE((w == 0 ? q.intersects(kh, kt, kl) : w == 1 ? q.hits(kh, kt, kl) : q.hits(kh, kt, kl, rad * k)) == e);
			if (e) { LIKE(kt, t, 1, 1); LIKEV(kh, h, k, z); any = true; }
		}
	}
	{
		Sphere<Real> e(a, rad), ke(ka, rad * k);
		bool r = p.intersects(t, e); REQUIRE(q.intersects(kt, ke) == r); if (r) LIKE(kt, t, k, z);
		r = p.hits(t, e); REQUIRE(q.hits(kt, ke) == r); if (r) LIKE(kt, t, k, z);
	}
	{
		Vec3<Real> n = (b - a) % (o - a);
		P x = P::from(a, b, o), y = P::from(ka, kb, ko);
		if (n.x != 0 || n.y != 0 || n.z != 0) { LIKEV(y.normal, x.normal, 1, 1); LIKE(y.d, x.d, k, z); }
		x = P::fromPointAndTangents(a, b, o); y = P::fromPointAndTangents(ka, kb, o);
		n = b % o;
		if (n.x != 0 || n.y != 0 || n.z != 0) { LIKEV(y.normal, x.normal, 1, 1); LIKE(y.d, x.d, k, z); }
	}
	P p2 = anyPlane<Real>(c), p3 = anyPlane<Real>(c);
	bool r = P::intersectAtSinglePoint(h, p, p2, p3);
	REQUIRE(P::intersectAtSinglePoint(kh, q, P(p2.normal, p2.d * k), P(p3.normal, p3.d * k)) == r);
	if (r) LIKEV(kh, h, k, sizeOf<T>(h) + 1e4L * (fabsl(p.d) + fabsl(p2.d) + fabsl(p3.d)));
	c.nontrivial(k != 1 && (any || r));
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	Plane<Real> a, b; equality<Real>(c, a, b, { &a.normal.x, &a.normal.y, &a.normal.z, &a.d }, { &b.normal.x, &b.normal.y, &b.normal.z, &b.d });
}
