// C35: the matchers shipped for tests
#include <iomanip>
#include <sstream>
#include <string>
#include <catch2/catch_tostring.hpp>
#include <catch2/internal/catch_enforce.hpp>
#include <catch2/matchers/catch_matchers_floating_point.hpp>
#include <functional>
#include <mathlib.h>
#include <mathlib_testlib.h>
#undef REQUIRE
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C35";
const char* pbt::RULE = "every type with a matcher in both precisions, all components arbitrary, margins from zero up and the default; each single component displaced by amounts around the margin in both directions, all displaced at once, and not-a-number; "
	"non-trivial: the displacement is within a factor of two of the margin and the margin is positive";

template <class R> struct Parts : std::vector<R*> {
	Parts& v2(Vec2<R>& v) { this->push_back(&v.x); this->push_back(&v.y); return *this; }
	Parts& v3(Vec3<R>& v) { this->push_back(&v.x); this->push_back(&v.y); this->push_back(&v.z); return *this; }
	Parts& v4(Vec4<R>& v) { this->push_back(&v.x); this->push_back(&v.y); this->push_back(&v.z); this->push_back(&v.w); return *this; }
	Parts& r(R& v) { this->push_back(&v); return *this; }
};
template <class R> Parts<R> parts(Vec2<R>& t) { return Parts<R>().v2(t); }
template <class R> Parts<R> parts(Vec3<R>& t) { return Parts<R>().v3(t); }
template <class R> Parts<R> parts(Vec4<R>& t) { return Parts<R>().v4(t); }
template <class R> Parts<R> parts(Mat2<R>& t) { return Parts<R>().v2(t.x).v2(t.y); }
template <class R> Parts<R> parts(Mat3<R>& t) { return Parts<R>().v3(t.x).v3(t.y).v3(t.z); }
template <class R> Parts<R> parts(Mat4<R>& t) { return Parts<R>().v4(t.x).v4(t.y).v4(t.z).v4(t.t); }
template <class R> Parts<R> parts(Mat34<R>& t) { return Parts<R>().v3(t.rs.x).v3(t.rs.y).v3(t.rs.z).v3(t.t); }
template <class R> Parts<R> parts(Quat<R>& t) { return Parts<R>().r(t.x).r(t.y).r(t.z).r(t.w); }
template <class R> Parts<R> parts(AABB2<R>& t) { return Parts<R>().v2(t.inf).v2(t.sup); }
template <class R> Parts<R> parts(AABB3<R>& t) { return Parts<R>().v3(t.inf).v3(t.sup); }
template <class R> Parts<R> parts(CAABB2<R>& t) { return Parts<R>().v2(t.center).v2(t.extents); }
template <class R> Parts<R> parts(CAABB3<R>& t) { return Parts<R>().v3(t.center).v3(t.extents); }
template <class R> Parts<R> parts(ColorRGB<R>& t) { return Parts<R>().r(t.r).r(t.g).r(t.b); }
template <class R> Parts<R> parts(ColorRGBA<R>& t) { return Parts<R>().r(t.r).r(t.g).r(t.b).r(t.a); }
template <class R> Parts<R> parts(ColorHSV<R>& t) { return Parts<R>().r(t.h).r(t.s).r(t.v); }
template <class R> Parts<R> parts(Line2<R>& t) { return Parts<R>().v2(t.start).v2(t.end); }
template <class R> Parts<R> parts(Line3<R>& t) { return Parts<R>().v3(t.start).v3(t.end); }
template <class R> Parts<R> parts(Ray2<R>& t) { return Parts<R>().v2(t.start).v2(t.direction); }
template <class R> Parts<R> parts(Ray3<R>& t) { return Parts<R>().v3(t.start).v3(t.direction); }
template <class R> Parts<R> parts(Plane<R>& t) { return Parts<R>().v3(t.normal).r(t.d); }
template <class R> Parts<R> parts(Circle<R>& t) { return Parts<R>().v2(t.center).r(t.radius); }
template <class R> Parts<R> parts(Sphere<R>& t) { return Parts<R>().v3(t.center).r(t.radius); }
template <class R> Parts<R> parts(Frustum<R>& t) { Parts<R> p; for (int i = 0; i < 8; i++) p.v3(t.corners[i]); return p; }

// numbers in a description, in order
static std::vector<double> numbers(const std::string& s)
{
	std::vector<double> r;
	const char* p = s.c_str();
	while (*p)
	{
		if ((*p >= '0' && *p <= '9') || (*p == '-' && p[1] >= '0' && p[1] <= '9')) { char* e; r.push_back(strtod(p, &e)); p = e; }
		else p++;
	}
	return r;
}

template <class Real, class T> static void check(Case& c)
{
	T a;
	Parts<Real> pa = parts(a);
	int n = int(pa.size());
	std::vector<Real> v(n);
	for (int i = 0; i < n; i++) v[i] = *pa[i] = real<Real>(c, -6, 6);
	// one of them large or small
	if (c.draw(3) == 2) { int i = int(c.draw(uint64_t(n))); v[i] = *pa[i] = mag<Real>(c, -30, 40) * Real(c.flip() ? 1 : -1); }
	double margin;
	bool dflt = false;
	switch (c.draw(4)) { case 0: margin = 1e-3; dflt = true; break; case 1: margin = 0; break; case 2: margin = mag<double>(c, -16, 0); break; default: margin = c.oneIn(4) ? mag<double>(c, -30, 30) : mag<double>(c, -10, 6); }
	// displacement around the margin
	LD f;
	switch (c.draw(4)) { case 0: f = 1 - LD(mag<double>(c, -12, 0)); break; case 1: f = 1 + LD(mag<double>(c, -12, 0)); break; case 2: f = mag<double>(c, -3, 3); break; default: f = c.flip() ? 1000 : 0; }
	LD d = margin > 0 ? f * margin : f;
	SHOW(n); SHOW(margin); SHOW(d);
	c.nontrivial(margin > 0 && f > 0.5L && f < 2);
	auto m = dflt ? Matches::WithinAbs(a) : Matches::WithinAbs(a, margin);
	REQUIRE(m.match(a));
	for (int i = 0; i < n; i++)
		for (int sg = -1; sg <= 1; sg += 2)
		{
			T b = a;
			Parts<Real> pb = parts(b);
			*pb[i] = Real(v[i] + sg * d);
			LD off = fabsl(LD(*pb[i]) - v[i]), tol = 8 * LD(std::numeric_limits<double>::epsilon()) * (fabsl(LD(v[i])) + margin);
			auto w = dflt ? Matches::WithinAbs(b) : Matches::WithinAbs(b, margin);
			if (off <= margin - tol || off == 0) { REQUIREM(m.match(b), i); REQUIREM(w.match(a), i); }
			if (off > margin + tol) { REQUIREM(!m.match(b), i); REQUIREM(!w.match(a), i); }
			if (sg > 0) continue;
			*pb[i] = std::numeric_limits<Real>::quiet_NaN();
			REQUIREM(!m.match(b), i);
			*pb[i] = std::numeric_limits<Real>::infinity();
			REQUIREM(!m.match(b), i);
		}
	// every component off by a little less than the margin
	{
		T b = a;
		Parts<Real> pb = parts(b);
		bool in = true;
		for (int i = 0; i < n; i++)
		{
			Real x = Real(v[i] + (i & 1 ? 0.875L : -0.875L) * margin);
			if (!(fabsl(LD(x) - v[i]) < 0.9375L * margin)) in = false;
			*pb[i] = x;
		}
		if (in) REQUIRE(m.match(b));
	}
	if (c.draw(16) == 0)
	{
		// what is reported names every component, in order
		std::vector<double> q = numbers(Catch::Detail::stringify(a)), k = numbers(m.describe());
		REQUIREM(int(q.size()) == n, q.size());
		REQUIREM(int(k.size()) == n + 1, k.size());
		for (int i = 0; i < n; i++)
		{
			REQUIREM(fabsl(LD(q[i]) - v[i]) <= 1e-4L * fabsl(v[i]), i);
			REQUIREM(fabsl(LD(k[i + 1]) - v[i]) <= 1e-4L * fabsl(v[i]), i);
		}
		bool threw = false;
		try { Matches::WithinAbs(a, -1.0); } catch (...) { threw = true; }
		REQUIRE(threw);
	}
}

LAW(vectors, 1) { switch (c.draw(3)) { case 0: check<Real, Vec2<Real>>(c); break; case 1: check<Real, Vec3<Real>>(c); break; default: check<Real, Vec4<Real>>(c); } }
LAW(matrices, 1) { switch (c.draw(5)) { case 0: check<Real, Mat2<Real>>(c); break; case 1: check<Real, Mat3<Real>>(c); break; case 2: check<Real, Mat4<Real>>(c); break; case 3: check<Real, Mat34<Real>>(c); break; default: check<Real, Quat<Real>>(c); } }
LAW(boxes, 1) { switch (c.draw(4)) { case 0: check<Real, AABB2<Real>>(c); break; case 1: check<Real, AABB3<Real>>(c); break; case 2: check<Real, CAABB2<Real>>(c); break; default: check<Real, CAABB3<Real>>(c); } }
LAW(colours, 1) { switch (c.draw(3)) { case 0: check<Real, ColorRGB<Real>>(c); break; case 1: check<Real, ColorRGBA<Real>>(c); break; default: check<Real, ColorHSV<Real>>(c); } }
LAW(lines, 1) { switch (c.draw(4)) { case 0: check<Real, Line2<Real>>(c); break; case 1: check<Real, Line3<Real>>(c); break; case 2: check<Real, Ray2<Real>>(c); break; default: check<Real, Ray3<Real>>(c); } }
LAW(solids, 1) { switch (c.draw(4)) { case 0: check<Real, Plane<Real>>(c); break; case 1: check<Real, Circle<Real>>(c); break; case 2: check<Real, Sphere<Real>>(c); break; default: check<Real, Frustum<Real>>(c); } }
