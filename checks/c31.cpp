// C31: response curves
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;
typedef ResponseCurveType T;

const char* pbt::PROPERTY = "C31";
const char* pbt::RULE = "every curve type, dead zones from zero to almost one (tiny and huge ones included), deflections uniform in [-1,1], at and within a few steps of the edge of the dead zone, of zero and of full deflection, "
	"and neighbouring pairs; non-trivial: the deflection is outside the dead zone and not full";

static const T TYPES[] = {T::Zero, T::Linear, T::Parabolic, T::Cubic, T::Exponential, T::Cosine};

template <class Real> static Real threshold(Case& c)
{
	switch (c.draw(5))
	{
	case 0: return Real(0);
	case 1: return Real(c.draw(10)) / Real(10);
	case 2: return mag<Real>(c, -20, 0) ;
	case 3: return Real(1) - mag<Real>(c, -10, -1);
	default: return between<Real>(c, Real(0), Real(0.95));
	}
}
template <class Real> static Real steps(Real x, int n)
{
	for (int i = 0; i < n; i++) x = std::nextafter(x, Real(2));
	for (int i = 0; i < -n; i++) x = std::nextafter(x, Real(-2));
	return x;
}
template <class Real> static Real deflection(Case& c, Real th)
{
	Real v;
	switch (c.draw(5))
	{
	case 0: v = Real(c.range(-8, 8)) / Real(8); break;
	case 1: v = steps(th, c.range(-6, 6)); break;
	case 2: v = steps(Real(1), -c.range(0, 6)); break;
	case 3: v = th + (Real(1) - th) * mag<Real>(c, -20, -1); break;
	default: v = between<Real>(c, Real(-1), Real(1));
	}
	if (c.flip()) v = -v;
	if (v > 1) v = 1;
	if (v < -1) v = -1;
	return v;
}
// the rescaled deflection and the curve; tol: an evaluation may be off by this
template <class Real> static LD ref(T t, Real v, Real th, LD* tol)
{
	LD u = Num<Real>::u(), a = fabsl(v), sg = v < 0 ? -1 : 1;
	*tol = 0;
	if (a <= th) return 0;
	LD x = (a - th) / (1 - LD(th)), e = 4 * u * x, r = 0, slope = 0;
	switch (t)
	{
	case T::Zero: return 0;
	case T::Linear: r = x; slope = 1; break;
	case T::Parabolic: r = x * x; slope = 2 * x; *tol = 4 * u * r; break;
	case T::Cubic: r = x * x * x; slope = 3 * x * x; *tol = 4 * u * r; break;
	case T::Exponential: r = powl(2, x) - 1; slope = 1.4L; *tol = 8 * u; break;
	case T::Cosine: r = 1 - cosl(x * PIL / 2); slope = 1.6L; *tol = 8 * u + 1e-8L; break;
	default: break;
	}
	*tol += slope * e + 4 * LD(std::numeric_limits<Real>::denorm_min());
	return sg * r;
}

LAW(formula, 2)
{
	T t = TYPES[c.draw(6)];
	Real th = threshold<Real>(c), v = deflection<Real>(c, th);
	SHOW(int(t)); SHOW(th); SHOW(v);
	if (!(th < Real(1))) pbt::discard();
	c.nontrivial(std::fabs(v) > th && std::fabs(v) < 1 && t != T::Zero);
	if (std::fabs(v) <= th) c.label("dead zone");
	Real r = evaluate(v, th, t);
	SHOW(r);
	LD tol, x = ref(t, v, th, &tol);
	CLOSE(r, x, tol);
	REQUIRE(evaluate(-v, th, t) == -r);
	if (std::fabs(v) <= th || t == T::Zero) REQUIRE(r == Real(0));
	REQUIRE(r >= Real(-1) && r <= Real(1));
	REQUIRE(v >= Real(0) ? r >= Real(0) : r <= Real(0));
	Real full = t == T::Zero ? Real(0) : Real(1);
	REQUIRE(evaluate(Real(1), th, t) == full);
	REQUIRE(evaluate(Real(-1), th, t) == -full);
}

// past full deflection: still odd, never back down, on the same law (the cosine has nothing left to rise)
LAW(beyond, 0.5)
{
	T t = TYPES[c.draw(6)];
	Real th = threshold<Real>(c);
	if (!(th < Real(1))) pbt::discard();
	auto far = [&]() { switch (c.draw(3)) { case 0: return steps(Real(1), c.range(0, 6)); case 1: return Real(1) + mag<Real>(c, -20, 2); default: return between<Real>(c, Real(1), Real(4)); } };
	Real v = far(), w = far();
	if (w < v) std::swap(v, w);
	SHOW(int(t)); SHOW(th); SHOW(v); SHOW(w);
	LD x = (LD(v) - th) / (1 - LD(th));
	if (x > 60) pbt::discard();
	if ((LD(w) - th) / (1 - LD(th)) > 60) w = v;
	c.nontrivial(v > Real(1) && t != T::Zero);
	Real a = evaluate(v, th, t), b = evaluate(w, th, t);
	SHOW(a); SHOW(b);
	REQUIRE(evaluate(-v, th, t) == -a);
	REQUIRE(evaluate(-w, th, t) == -b);
	REQUIREM(LD(b) >= LD(a) - 8 * Num<Real>::u() * fabsl(a), "decreases");
	if (t == T::Cosine) REQUIRE(a == Real(1));
	else
	{
		LD tol, y = ref(t, v, th, &tol);
		if (t == T::Exponential) tol = 64 * Num<Real>::u() * (1 + x) * (1 + y);
		CLOSE(a, y, 4 * tol);
	}
}

LAW(monotone, 1)
{
	T t = TYPES[c.draw(6)];
	Real th = threshold<Real>(c), v = deflection<Real>(c, th), w;
	if (!(th < Real(1))) pbt::discard();
	switch (c.draw(3))
	{
	case 0: w = steps(v, 1 + c.range(0, 3)); break;
	case 1: w = v + mag<Real>(c, -24, -2); break;
	default: w = deflection<Real>(c, th);
	}
	if (w < v) std::swap(v, w);
	if (w > 1) w = 1;
	SHOW(int(t)); SHOW(th); SHOW(v); SHOW(w);
	c.nontrivial(v < w && (w > th || v < -th) && t != T::Zero);
	Real a = evaluate(v, th, t), b = evaluate(w, th, t);
	SHOW(a); SHOW(b);
	LD ta, tb, ra = ref(t, v, th, &ta), rb = ref(t, w, th, &tb);
	LD u = Num<Real>::u();
	REQUIREM(LD(b) >= LD(a) - 4 * u, "decreases");
	// no jump: at most the steepest slope of any curve, pi/2 past the dead zone (3 for the cubic)
	REQUIREM(LD(b) - a <= 3 * (LD(w) - v) / (1 - LD(th)) + ta + tb, "jumps");
	REQUIREM(LD(b) - a <= rb - ra + ta + tb, "jumps");
}
