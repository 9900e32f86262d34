// C29: linear and angular interpolation
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;
typedef InterpolationMode M;

const char* pbt::PROPERTY = "C29";
const char* pbt::RULE = "pairs of integers, scalars and vectors (equal, opposite, far apart), angles many turns from zero and from each other in every relative position, at and around half a turn, "
	"ratios inside, at and beyond the ends, every easing mode, limits from zero to more than a turn; non-trivial: the ends differ and the ratio is strictly inside (or the limit strictly between zero and the turn)";

static const int N_MODES = int(M::CircularInOut) + 1;

template <class Real> static Real ratio(Case& c)
{
	if (c.draw(8) == 7) return real<Real>(c);
	return unit01<Real>(c);
}

template <class Real> static void checkInt(Case& c, int a, int b, Real t, int r)
{
	LD u = Num<Real>::u();
	LD x = LD(t) * (LD(b) - LD(a)), tol = 4 * u * fabsl(x);
	LD lo = truncl(x - tol), hi = truncl(x + tol);
	REQUIREM(LD(r) - a >= lo && LD(r) - a <= hi, "got " + pbt::str(r) + " expected " + pbt::str(LD(a) + truncl(x)));
}

LAW(integers, 1)
{
	int n = std::is_same<Real, float>::value ? 1 << 22 : 1 << 29, a, b;
	switch (c.draw(3))
	{
	case 0: a = c.range(-10, 10); b = c.range(-10, 10); break;
	case 1: a = c.range(-1000, 1000); b = c.range(-1000, 1000); break;
	default: a = c.range(-n, n); b = c.range(-n, n);
	}
	Real t = unit01<Real>(c);
	M m = M(int(c.draw(N_MODES)));
	SHOW(a); SHOW(b); SHOW(t); SHOW(int(m));
	c.nontrivial(a != b && t > 0 && t < 1);
	REQUIRE(mathlib::lerp(a, b, Real(0)) == a);
	REQUIRE(mathlib::lerp(a, b, Real(1)) == b);
	int r = mathlib::lerp(a, b, t);
	checkInt(c, a, b, t, r);
	REQUIRE(r >= std::min(a, b) && r <= std::max(a, b));
	REQUIRE(mathlib::lerp(a, b, Real(0), m) == a);
	REQUIRE(mathlib::lerp(a, b, Real(1), m) == b);
	Real e = interpolationRatio(t, m);
	checkInt(c, a, b, e, mathlib::lerp(a, b, t, m));
	REQUIRE(mathlib::lerp(a, b, Real(-3), m) == a);
	REQUIRE(mathlib::lerp(a, b, Real(3), m) == b);
}

template <class R> static Num<R> lerpRef(R a, R b, R t) { return Num<R>(a) + (Num<R>(b) - Num<R>(a)) * Num<R>(t); }

LAW(scalars, 1)
{
	Real a = real<Real>(c), b = real<Real>(c), t = ratio<Real>(c);
	if (c.draw(8) == 0) b = a;
	M m = M(int(c.draw(N_MODES)));
	SHOW(a); SHOW(b); SHOW(t); SHOW(int(m));
	c.nontrivial(a != b && t > 0 && t < 1);
	REQUIRE(mathlib::lerp(a, b, Real(0)) == a);
	NEAR(mathlib::lerp(a, b, Real(1)), lerpRef(a, b, Real(1)));
	NEAR(mathlib::lerp(a, b, t), lerpRef(a, b, t));
	NEAR(mathlib::lerp(b, a, Real(1) - t), (Num<Real>(b) + (Num<Real>(a) - Num<Real>(b)) * (Num<Real>(1) - Num<Real>(t))));
	Real e = interpolationRatio(t, m);
	NEAR(mathlib::lerp(a, b, t, m), lerpRef(a, b, e));
	REQUIRE(mathlib::lerp(a, b, Real(-3), m) == a);
	NEAR(mathlib::lerp(a, b, Real(3), m), lerpRef(a, b, Real(1)));
	REQUIRE(mathlib::lerp(a, a, t) == a);
}

LAW(vectors, 1)
{
	Vec3<Real> a = vec3<Real>(c), b = vec3<Real>(c);
	Real t = ratio<Real>(c);
	M m = M(int(c.draw(N_MODES)));
	SHOWV(a); SHOWV(b); SHOW(t); SHOW(int(m));
	c.nontrivial(a.x != b.x && a.y != b.y && a.z != b.z && t > 0 && t < 1);
	Vec2<Real> a2(a.x, a.y), b2(b.x, b.y);
	Real e = interpolationRatio(t, m);
	for (int k = 0; k < 2; k++)
	{
		Real w = k ? e : t;
		Vec3<Real> r = k ? mathlib::lerp(a, b, t, m) : mathlib::lerp(a, b, t);
		Vec2<Real> q = k ? mathlib::lerp(a2, b2, t, m) : mathlib::lerp(a2, b2, t);
		NEAR(r.x, lerpRef(a.x, b.x, w)); NEAR(r.y, lerpRef(a.y, b.y, w)); NEAR(r.z, lerpRef(a.z, b.z, w));
		NEAR(q.x, lerpRef(a.x, b.x, w)); NEAR(q.y, lerpRef(a.y, b.y, w));
	}
	SAME3(mathlib::lerp(a, b, Real(0)), a);
	SAME2(mathlib::lerp(a2, b2, Real(0)), a2);
	SAME3(mathlib::lerp(a, b, Real(-3), m), a);
	SAME2(mathlib::lerp(a2, b2, Real(-3), m), a2);
	Vec3<Real> r = mathlib::lerp(a, b, Real(3), m);
	Vec2<Real> q = mathlib::lerp(a2, b2, Real(3), m);
	NEAR(r.x, lerpRef(a.x, b.x, Real(1))); NEAR(r.y, lerpRef(a.y, b.y, Real(1))); NEAR(r.z, lerpRef(a.z, b.z, Real(1)));
	NEAR(q.x, lerpRef(a.x, b.x, Real(1))); NEAR(q.y, lerpRef(a.y, b.y, Real(1)));
}

// ---- angles ----------------------------------------------------------------

template <class Real> static void angles(Case& c, Real& a, Real& b)
{
	switch (c.draw(4))
	{
	case 0: a = Real(0); break;
	case 1: a = Real(c.range(-30, 30)); break;
	case 2: a = between<Real>(c, Real(-7), Real(7)); break;
	default: a = between<Real>(c, Real(-300), Real(300));
	}
	LD d;
	switch (c.draw(5))
	{
	case 0: d = PIL * c.range(-12, 12) / 6; break;
	case 1: d = between<Real>(c, Real(-7), Real(7)); break;
	case 2: d = (c.flip() ? PIL : -PIL) + (c.flip() ? 1 : -1) * LD(mag<Real>(c, -16, -1)); break;
	case 3: d = (c.flip() ? 1 : -1) * LD(mag<Real>(c, -16, 0)); break;
	default: d = between<Real>(c, Real(-300), Real(300));
	}
	d += 2 * PIL * (c.draw(3) ? 0 : c.range(-20, 20));
	b = Real(LD(a) + d);
	// simple ends
	switch (c.draw(12))
	{
	case 9: b = Real(c.range(-6, 6)) / 2; break;
	case 10: b = -a; break;
	case 11: b = grid<Real>(c, 3) * Real(PIL) / 2; break;
	}
}
// shortest turn from a to b, and the rounding of the operands
template <class Real> static LD turn(Real a, Real b, LD* tol, bool* tie)
{
	LD u = Num<Real>::u(), per = 2 * LD(Constants<Real>::PI), d = remainderl(LD(b) - a, per);
	// the period itself is rounded: `per` is what the library calls a turn; it is checked against 2 pi in C30
	*tol = 4 * u * (fabsl(LD(b)) + fabsl(LD(a)) + per);
	*tie = per / 2 - fabsl(d) <= *tol;
	return d;
}

LAW(clerp, 2)
{
	Real a, b, t = unit01<Real>(c);
	angles(c, a, b);
	LD tol; bool tie;
	LD d = turn(a, b, &tol, &tie);
	SHOW(a); SHOW(b); SHOW(t);
	c.nontrivial(fabsl(d) > 0.01L && t > 0 && t < 1);
	if (tie) c.label("half a turn");
	Real r = mathlib::clerp(a, b, t);
	SHOW(r);
	LD x = LD(a) + d * t;
	if (tie)
	{
		LD y = LD(a) - d * t;
		REQUIRE(fabsl(r - x) <= 2 * tol || fabsl(r - y) <= 2 * tol);
	}
	else CLOSE(r, x, 2 * tol);
	REQUIRE(mathlib::clerp(a, b, Real(0)) == a);
	// arrives at the end, a whole number of turns apart
	LD off = remainderl(LD(mathlib::clerp(a, b, Real(1))) - b, 2 * LD(Constants<Real>::PI));
	REQUIREM(fabsl(off) <= 2 * tol, "misses the end by " + pbt::str(off));
	// further turns do not matter
	int n = c.range(-5, 5);
	Real b2 = Real(LD(b) + n * 2 * LD(Constants<Real>::PI));
	SHOW(n);
	LD tol2; bool tie2;
	turn(a, b2, &tol2, &tie2);
	if (!tie && !tie2) CLOSE(mathlib::clerp(a, b2, t), r, 2 * (tol + tol2));
}

LAW(clerpMaxAngle, 2)
{
	Real a, b, lim;
	angles(c, a, b);
	if (c.draw(6) == 5) b = a + (c.flip() ? Real(1) : Real(-1)) * mag<Real>(c, -30, -8); // hardly anything to turn
	LD tol; bool tie;
	LD d = turn(a, b, &tol, &tie);
	switch (c.draw(4))
	{
	case 0: { static const double k[] = {0, 0.5, 1, 3, 4, 7, 0.001}; lim = Real(k[c.draw(7)]); break; }
	case 1: lim = Real(fabsl(d) * unit01<Real>(c)); break;
	case 2: lim = Real(fabsl(d) + (c.flip() ? 1 : -1) * LD(mag<Real>(c, -20, 0))); if (lim < 0) lim = 0; break;
	default: lim = between<Real>(c, Real(0), Real(3.2));
	}
	SHOW(a); SHOW(b); SHOW(lim);
	c.nontrivial(fabsl(d) > 0.01L && lim > Real(0.001) && lim < fabsl(d));
	if (tie) c.label("half a turn");
	Real q = Real(7);
	Real r = mathlib::clerpMaxAngle(a, b, lim), r2 = mathlib::clerpMaxAngle(a, b, lim, q);
	SHOW(r); SHOW(q);
	REQUIRE(r == r2);
	LD part = fabsl(d) < lim ? fabsl(d) : LD(lim);
	LD x = d < 0 ? LD(a) - part : LD(a) + part;
	if (tie) REQUIRE(fabsl(r - x) <= 2 * tol || fabsl(r - (2 * LD(a) - x)) <= 2 * tol);
	else CLOSE(r, x, 2 * tol);
	REQUIREM(fabsl(LD(r) - a) <= LD(lim) + 2 * tol, "turned by more than the limit");
	// the fraction
	REQUIRE(q >= Real(0) && q <= Real(1));
	if (fabsl(d) > 4 * tol) CLOSE(q, part / fabsl(d), 4 * tol / (fabsl(d) - 2 * tol));
	if (LD(lim) > fabsl(d) + 2 * tol) REQUIRE(q == Real(1));
	// the fraction is the ratio of the unlimited interpolation
	if (!tie && fabsl(d) > 4 * tol) CLOSE(mathlib::clerp(a, b, q), r, 8 * tol);
	// nothing to turn
	q = Real(7);
	REQUIRE(mathlib::clerpMaxAngle(a, a, lim, q) == a && q == Real(1));
	REQUIRE(mathlib::clerpMaxAngle(a, a, lim) == a);
}
