// C17: boxes against rays and line segments
#include "boxes.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C17";
const char* pbt::RULE = "boxes (thin and degenerate ones included) and carriers starting outside, inside or on the boundary, aimed at a point of the box, at a corner or face plane, or anywhere, along axes, diagonals and in general; exactly representable configurations are judged on their boundaries too; "
	"non-trivial: the carrier has more than one non-zero direction component, or it meets the box";

// where the carrier start + t * d is inside the box, by exact clipping with error bounds
template <class R> struct Clip
{
	bool parallelOutside = false, parallelAll = true;
	Num<R> lo{-1e4000L, 0}, hi{1e4000L, 0};
	std::vector<Num<R>> los, his;
};
template <class T> static Clip<typename T::Real> clip(const typename T::A& a, const typename T::V& s, const NV<T>& d)
{
	typedef typename T::Real R; typedef Num<R> N;
	Clip<R> k;
	for (int i = 0; i < T::D; i++)
	{
		N inf(T::get(a.inf, i)), sup(T::get(a.sup, i)), st(T::get(s, i));
		if (d.a[i].v == 0)
		{
			if (st.v < inf.v || st.v > sup.v) k.parallelOutside = true;
			continue;
		}
		k.parallelAll = false;
		N inv = N(1) / d.a[i];
		N t1 = (inf - st) * inv, t2 = (sup - st) * inv;
		if (t1.v > t2.v) std::swap(t1, t2);
		k.los.push_back(t1); k.his.push_back(t2);
		if (t1.v > k.lo.v) k.lo = t1;
		if (t2.v < k.hi.v) k.hi = t2;
	}
	return k;
}

// start, direction: several ways of aiming
template <class T> static void aim(Case& c, Pools<typename T::Real>& pool, const typename T::A& a, typename T::V& start, typename T::V& dir)
{
	GEOTYPES;
	start = T::zero(); dir = T::zero();
	switch (c.draw(4))
	{
	case 0: start = a.pointAt(T::vec(c)); break;
	case 1: { V w = T::zero(); for (int i = 0; i < D; i++) T::at(w, i) = unit01<Real>(c); start = a.pointAt(w); break; }
	default: start = anyPoint<T>(c, pool);
	}
	switch (c.draw(5))
	{
	case 0: { int ax = int(c.draw(D)); T::at(dir, ax) = c.flip() ? Real(-1) : Real(1); break; }
	case 1: for (int i = 0; i < D; i++) { static const double v[] = {1, -1, 0, 2, -2, 0.5, -0.5, 4, -4}; T::at(dir, i) = Real(v[c.draw(9)]); } break;
	case 2: { V w = T::zero(); for (int i = 0; i < D; i++) T::at(w, i) = unit01<Real>(c); dir = a.pointAt(w) - start; break; }
	case 3: dir = anyPoint<T>(c, pool) - start; break;
	default: for (int i = 0; i < D; i++) T::at(dir, i) = c.draw(5) == 0 ? Real(0) : real<Real>(c, -4, 4);
	}
	// directions of vanishing size are rounding noise of the differences above
	for (int i = 0; i < D; i++) if (std::abs(T::get(dir, i)) < Real(1e-4)) T::at(dir, i) = Real(0);
	// carriers that are nearly, but not, parallel to a face
	if (c.draw(6) == 5)
	{
		int ax = int(c.draw(D));
		T::at(start, ax) = c.flip() ? Real(0) : T::get(c.flip() ? a.inf : a.sup, ax);
		T::at(dir, ax) = Real(std::ldexp(c.flip() ? 1.0 : -1.0, -c.range(14, 60)));
		c.label("nearly parallel");
	}
}

static bool power2(LD x) { if (x == 0) return true; int e; LD m = frexpl(fabsl(x), &e); return m == 0.5L; }

// every query about one carrier; `end` is 1 for segments, infinite for rays
template <class T, class C> static void judge(Case& c, const typename T::A& a, const C& carrier, const typename T::V& start, const NV<T>& d, bool exact, bool segment)
{
	GEOTYPES;
	typedef Num<Real> N;
	Clip<Real> k = clip<T>(a, start, d);
	bool startIn = a.contains(start);
	Margin<Real> hit(exact), meet(exact);
	if (k.parallelOutside) { hit.no = true; meet.no = true; }
	else if (k.parallelAll)
	{
		// no extent: it meets the box when its only point does, and never enters it
		hit.no = true;
		if (!startIn) meet.no = true;
		c.label("no direction");
	}
	else
	{
		// the latest entry must not be later than the earliest exit: each pair of slabs
		for (auto& l : k.los) for (auto& h : k.his) { N m = h - l; hit.all(m); meet.all(m); }
		for (auto& h : k.his) meet.all(h);
		// entered at or after the start by at least one slab: maximum of the entries
		{
			bool yes = false, unsure = false;
			for (auto& l : k.los) { LD tol = exact ? 0 : 16 * l.e + 1e-30L; if (l.v >= tol) yes = true; else if (l.v > -tol) unsure = true; }
			if (!yes) { if (unsure) hit.sure = false; else hit.no = true; }
		}
		if (segment) for (auto& l : k.los) { N m = N(1) - l; m.e = l.e; hit.all(m); meet.all(m); }
	}
	if (hit.verdict() == 1) c.label("entered");
	if (startIn) c.label("start inside");
	if (meet.verdict() == 0) c.label("missed");

	Real t = Real(7777);
	bool r = a.hits(t, carrier);
	DECIDE(r, hit);
	if (r)
	{
		REQUIRE(t >= Real(0)); if (segment) REQUIRE(t <= Real(1));
		if (hit.verdict() == 1) NEAR(t, k.lo);
		V p = carrier.pointAt(t);
		// on the box: within rounding of every slab, and on at least one face
		bool face = false;
		for (int i = 0; i < D; i++)
		{
			LD tol = 16 * (k.lo.e * fabsl(d.a[i].v) + u * (fabsl(T::get(start, i)) + fabsl(k.lo.v * d.a[i].v)) * 2) + 1e-30L;
			LD x = T::get(p, i), lo = T::get(a.inf, i), hi = T::get(a.sup, i);
			REQUIREM(x >= lo - tol && x <= hi + tol, "entry point " + s(p) + " is off the box");
			if (fabsl(x - lo) <= tol || fabsl(x - hi) <= tol) face = true;
		}
		REQUIREM(face, "entry point " + s(p) + " is not on the boundary");
		c.nontrivial();
	}
	Real t1 = Real(7777), t2 = Real(-7777);
	bool q = a.intersects(t1, t2, carrier);
	DECIDE(q, meet);
	if (q)
	{
		REQUIRE(t1 >= Real(0)); REQUIRE(t1 <= t2); if (segment) REQUIRE(t2 <= Real(1));
		if (meet.verdict() == 1)
		{
			N lo = k.lo, hi = k.hi;
			if (k.parallelAll) lo = N(0);
			if (lo.v < 0) { lo = N(0, lo.e); }
			NEAR(t1, lo);
			if (!k.parallelAll) { if (segment && hi.v > 1) hi = N(1, hi.e > 1 ? 1 : hi.e); NEAR(t2, hi); }
		}
		if (startIn && !k.parallelAll) CLOSE(t1, 0, exact ? 0 : 64 * (k.lo.e + u));
		// the piece in between lies in the box
		if (meet.verdict() == 1 && !k.parallelAll)
		{
			Real w = unit01<Real>(c);
			Real m = t1 + (t2 - t1) * w;
			V p = carrier.pointAt(m);
			for (int i = 0; i < D; i++)
			{
				LD big = fabsl(T::get(start, i)) + fabsl(LD(m) * d.a[i].v) + fabsl(k.hi.v * d.a[i].v);
				LD tol = 32 * ((k.lo.e + k.hi.e) * fabsl(d.a[i].v) + u * big) + 1e-30L;
				REQUIREM(T::get(p, i) >= T::get(a.inf, i) - tol && T::get(p, i) <= T::get(a.sup, i) + tol, "point " + s(p) + " at " + pbt::str(m) + " is outside");
			}
		}
		c.nontrivial();
	}
	// entering implies meeting, at the same place
	if (r && hit.verdict() == 1 && meet.verdict() == 1) { REQUIRE(q); NEAR(t1, k.lo); }
	int parts = 0;
	for (int i = 0; i < D; i++) if (d.a[i].v != 0) parts++;
	c.nontrivial(parts > 1);
}

template <class T> static bool exactGeometry(const typename T::V& d) { for (int i = 0; i < T::D; i++) if (!power2(T::get(d, i))) return false; return true; }
template <class T> static bool onGrid(const typename T::V& v) { for (int i = 0; i < T::D; i++) { LD x = LD(T::get(v, i)) * 64; if (x != floorl(x) || fabsl(x) > 65536) return false; } return true; }

GEOLAW(ray, 2)
{
	GEOTYPES;
	bool ex = c.draw(3) != 2;
	Pools<Real> pool(ex);
	A a = anyBox<T>(c, pool);
	V start, dir;
	aim<T>(c, pool, a, start, dir);
	Ray r;
	r.start = start;
	bool asIs = c.draw(3) != 0;
	if (asIs) r.direction = dir; else r = Ray::from(start, dir);
	SHOWBOX(a); SHOWV(r.start); SHOWV(r.direction);
	for (int i = 0; i < D; i++) if (T::get(r.direction, i) != 0 && std::abs(T::get(r.direction, i)) < Real(1e-19)) pbt::discard();
	bool exact = onGrid<T>(a.inf) && onGrid<T>(a.sup) && onGrid<T>(start) && exactGeometry<T>(r.direction);
	judge<T>(c, a, r, start, nv<T>(r.direction), exact, false);
}

GEOLAW(segment, 2)
{
	GEOTYPES;
	typedef Num<Real> N;
	bool ex = c.draw(3) != 2;
	Pools<Real> pool(ex);
	A a = anyBox<T>(c, pool);
	V start, dir;
	aim<T>(c, pool, a, start, dir);
	// short, long, just reaching, or falling short of the box
	static const double ks[] = {1, 0.5, 2, 4, 0.25, 8};
	Real k = Real(ks[c.draw(6)]);
	Line l = Line::from(start, start + dir * k);
	SHOWBOX(a); SHOWV(l.start); SHOWV(l.end);
	V delta = l.end - l.start;
	for (int i = 0; i < D; i++) if (T::get(delta, i) != 0 && std::abs(T::get(delta, i)) < Real(1e-19)) pbt::discard();
	bool exact = onGrid<T>(a.inf) && onGrid<T>(a.sup) && onGrid<T>(start) && onGrid<T>(l.end) && exactGeometry<T>(delta);
	if (exact) c.label("exact");
	NV<T> d = perAxis<T>([&](int i) { N x = N(T::get(l.end, i)) - N(T::get(l.start, i)); if (exact) x.e = 0; return x; });
	judge<T>(c, a, l, start, d, exact, true);
}

// a segment and the ray along it agree where the segment reaches; scaling everything by two changes nothing
GEOLAW(agree, 0.7)
{
	GEOTYPES;
	Pools<Real> pool(true);
	A a = anyBox<T>(c, pool);
	V start = anyPoint<T>(c, pool), dir = T::zero();
	for (int i = 0; i < D; i++) { static const double v[] = {1, -1, 0, 2, -2, 4, -4, 8, -8}; T::at(dir, i) = Real(v[c.draw(9)]); }
	Ray r; r.start = start; r.direction = dir;
	Line l = Line::from(start, start + dir);
	SHOWBOX(a); SHOWV(start); SHOWV(dir);
	Real t = 0, tl = 0, a1 = 0, a2 = 0, b1 = 0, b2 = 0;
	bool hr = a.hits(t, r), hl = a.hits(tl, l);
	c.nontrivial(hr);
	REQUIRE(hl == (hr && t <= Real(1)));
	if (hl) SAME(t, tl);
	bool ir = a.intersects(a1, a2, r), il = a.intersects(b1, b2, l);
	REQUIRE(il == (ir && a1 <= Real(1)));
	if (il) { SAME(a1, b1); SAME(b2, a2 < Real(1) ? a2 : Real(1)); }
	// reversed segment: the same piece seen from the other end
	{
		Line b = Line::from(l.end, l.start);
		Real c1 = 0, c2 = 0;
		REQUIRE(a.intersects(c1, c2, b) == il);
		if (il) { SAME(c1, Real(1) - b2); SAME(c2, Real(1) - b1); }
	}
	// all axes mirrored
	{
		A m(-a.sup, -a.inf);
		Line b = Line::from(-l.start, -l.end);
		Real c1 = 0, c2 = 0, h = 0;
		REQUIRE(m.intersects(c1, c2, b) == il); if (il) { SAME(c1, b1); SAME(c2, b2); }
		REQUIRE(m.hits(h, b) == hl); if (hl) SAME(h, tl);
	}
}

// at any size the answers are the same, and so is the place along the segment
GEOLAW(scaled, 1.5)
{
	GEOTYPES;
	A a = boxK<T>(c);
	V st = vecK<T>(c), en = vecK<T>(c);
	if (c.flip()) { V w = T::zero(); for (int i = 0; i < D; i++) T::at(w, i) = unit01<Real>(c); en = a.pointAt(w); if (c.flip()) en = en + (en - st) * Real(0.5); }
	Real k = pow2<Real>(c);
	SHOWBOX(a); SHOWV(st); SHOWV(en); SHOW(k);
	A ka = scaleA<T>(a, k);
	V kst = scaleV<T>(st, k), ken = scaleV<T>(en, k);
	Real t = -1, kt = -1, t1 = -1, t2 = -1, k1 = -1, k2 = -1;
	{
		Line l = Line::from(st, en), kl = Line::from(kst, ken);
		bool r = a.hits(t, l); REQUIRE(ka.hits(kt, kl) == r);
		if (r) LIKE(kt, t, 1, 1);
		bool q = a.intersects(t1, t2, l); REQUIRE(ka.intersects(k1, k2, kl) == q);
		if (q) { LIKE(k1, t1, 1, 1); LIKE(k2, t2, 1, 1); }
		c.nontrivial(k != 1 && (r || q));
	}
	{
		// the direction kept as given, both kept and scaled
		Ray l; l.start = st; l.direction = en - st;
		Ray kl; kl.start = kst; kl.direction = scaleV<T>(l.direction, k);
		Ray ku; ku.start = kst; ku.direction = l.direction;
		bool r = a.hits(t, l); REQUIRE(ka.hits(kt, kl) == r);
		if (r) LIKE(kt, t, 1, fabsl(t));
		REQUIRE(ka.hits(kt, ku) == r);
		if (r) LIKE(kt, t, k, fabsl(t));
		bool q = a.intersects(t1, t2, l); REQUIRE(ka.intersects(k1, k2, kl) == q);
		if (q) { LIKE(k1, t1, 1, fabsl(t1)); if (fabsl(t2) < 1e30L) LIKE(k2, t2, 1, fabsl(t2)); }
		REQUIRE(ka.intersects(k1, k2, ku) == q);
		if (q) { LIKE(k1, t1, k, fabsl(t1)); if (fabsl(t2) < 1e30L) LIKE(k2, t2, k, fabsl(t2)); }
	}
}
