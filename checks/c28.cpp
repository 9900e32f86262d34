// C28: easing curves
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;
typedef InterpolationMode M;

const char* pbt::PROPERTY = "C28";
const char* pbt::RULE = "every interpolation mode in both precisions, ratios uniform, at sixteenths, within a few representable steps of 0, 1/2 and 1, outside [0,1], and neighbouring pairs; "
	"non-trivial: the ratio is strictly between 0 and 1 and the mode is not linear";

enum Shape { WHOLE, IN, OUT, INOUT };
enum Fam { LIN, P2, P3, P4, P5, SINE, EXPO, EXPO2, CIRC, EXPM1 };
struct Mode { M m; Fam f; Shape s; const char* name; };
static const Mode MODES[] = {
	{M::Linear, LIN, WHOLE, "Linear"}, {M::Parabolic, P2, WHOLE, "Parabolic"}, {M::Cubic, P3, WHOLE, "Cubic"}, {M::Exponential, EXPM1, WHOLE, "Exponential"}, {M::Cosine, SINE, WHOLE, "Cosine"},
	{M::QuadraticIn, P2, IN, "QuadraticIn"}, {M::QuadraticOut, P2, OUT, "QuadraticOut"}, {M::QuadraticInOut, P2, INOUT, "QuadraticInOut"},
	{M::CubicIn, P3, IN, "CubicIn"}, {M::CubicOut, P3, OUT, "CubicOut"}, {M::CubicInOut, P3, INOUT, "CubicInOut"},
	{M::QuarticIn, P4, IN, "QuarticIn"}, {M::QuarticOut, P4, OUT, "QuarticOut"}, {M::QuarticInOut, P4, INOUT, "QuarticInOut"},
	{M::QuinticIn, P5, IN, "QuinticIn"}, {M::QuinticOut, P5, OUT, "QuinticOut"}, {M::QuinticInOut, P5, INOUT, "QuinticInOut"},
	{M::SinusoidalIn, SINE, IN, "SinusoidalIn"}, {M::SinusoidalOut, SINE, OUT, "SinusoidalOut"}, {M::SinusoidalInOut, SINE, INOUT, "SinusoidalInOut"},
	{M::ExponentialIn, EXPO, IN, "ExponentialIn"}, {M::ExponentialOut, EXPO, OUT, "ExponentialOut"}, {M::ExponentialInOut, EXPO, INOUT, "ExponentialInOut"},
	{M::Exponential2In, EXPO2, IN, "Exponential2In"}, {M::Exponential2Out, EXPO2, OUT, "Exponential2Out"}, {M::Exponential2InOut, EXPO2, INOUT, "Exponential2InOut"},
	{M::CircularIn, CIRC, IN, "CircularIn"}, {M::CircularOut, CIRC, OUT, "CircularOut"}, {M::CircularInOut, CIRC, INOUT, "CircularInOut"},
};
static const int N_MODES = sizeof(MODES) / sizeof(MODES[0]);

// the curve of a family on [0,1], and how far an evaluation with rounding unit u may be off
static LD base(Fam f, LD t, LD u, LD* tol)
{
	*tol = 0;
	switch (f)
	{
	case LIN: return t;
	case P2: *tol = 16 * u * t * t; return t * t;
	case P3: *tol = 16 * u * t * t * t; return t * t * t;
	case P4: *tol = 16 * u * t * t * t * t; return t * t * t * t;
	case P5: *tol = 16 * u * t * t * t * t * t; return t * t * t * t * t;
	case SINE: *tol = 8 * u; return 1 - cosl(t * PIL / 2);
	case EXPM1: *tol = 8 * u; return powl(2, t) - 1;
	// the library's six-digit constants
	case EXPO: { LD g = (powl(2, 10 * (t - 1)) - powl(2, -10)) / (1 - powl(2, -10)); *tol = 2.6e-6L * fabsl(g) + 6e-10L + 64 * u; return g; }
	case EXPO2: { LD g = powl(2, 20 * (t - 1)); *tol = 64 * u; return g; }
	case CIRC: { LD q = 1 - t * t, e = 16 * u; if (q < 0) q = 0; LD s = sqrtl(q); LD e2 = s > 0 ? e / s : 1; if (e2 > sqrtl(e)) e2 = sqrtl(e); *tol = e2 + 8 * u; return 1 - s; }
	}
	return t;
}
static LD ref(const Mode& m, LD t, LD u, LD* tol)
{
	if (t <= 0) { *tol = 0; return 0; }
	if (t >= 1) { *tol = 0; return 1; }
	LD r;
	switch (m.s)
	{
	case OUT: r = 1 - base(m.f, 1 - t, u, tol); *tol += 64 * u; return r;
	case INOUT:
		if (t < 0.5L) { r = base(m.f, 2 * t, u, tol) / 2; *tol = *tol / 2; return r; }
		r = 1 - base(m.f, 2 - 2 * t, u, tol) / 2; *tol = *tol / 2 + 128 * u; return r;
	default: return base(m.f, t, u, tol);
	}
}

template <class Real> static Real ratio(Case& c)
{
	switch (c.draw(6))
	{
	case 0: return Real(c.draw(33)) / Real(32);
	case 1: {    // a few steps from a joint
		static const double at[] = {0.5, 1, 0.5, 1, 0.25, 0.75};
		Real t = Real(at[c.draw(6)]);
		int n = c.range(-20, 20);
		for (int i = 0; i < n; i++) t = std::nextafter(t, Real(2));
		for (int i = 0; i < -n; i++) t = std::nextafter(t, Real(0));
		return t;
	}
	case 2: { Real d = mag<Real>(c, -40, -1); return c.flip() ? Real(1) - d : d; }
	case 3: { Real d = mag<Real>(c, -22, -2); return c.flip() ? Real(0.5) - d : Real(0.5) + d; }
	default: return between<Real>(c, Real(0), Real(1));
	}
}

LAW(formula, 3)
{
	LD u = Num<Real>::u();
	const Mode& m = MODES[c.draw(N_MODES)];
	Real t = ratio<Real>(c);
	c.note(m.name); SHOW(t);
	c.label(m.name);
	c.nontrivial(t > 0 && t < 1 && m.f != LIN);
	LD tol, r = ref(m, t, u, &tol);
	Real a = interpolationRatio(t, m.m);
	SHOW(a);
	CLOSE(a, r, tol + LD(std::numeric_limits<Real>::min()));
}

LAW(ends, 0.5)
{
	const Mode& m = MODES[c.draw(N_MODES)];
	c.note(m.name);
	REQUIRE(interpolationRatio(Real(0), m.m) == Real(0));
	REQUIRE(interpolationRatio(Real(1), m.m) == Real(1));
	// outside, the nearest end
	Real d = mag<Real>(c, -20, 20);
	SHOW(d);
	c.nontrivial();
	REQUIRE(interpolationRatio(-d, m.m) == Real(0));
	REQUIRE(interpolationRatio(Real(1) + d, m.m) == Real(1));
}

// whatever is interpolated in a mode gets as far as the mode says, at any parameter
LAW(eased, 0.5)
{
	const Mode& m = MODES[c.draw(N_MODES)];
	Real t = ratio<Real>(c);
	if (c.oneIn(4)) t = c.flip() ? -mag<Real>(c, -20, 6) : Real(1) + mag<Real>(c, -20, 6);
	c.note(m.name); SHOW(t);
	c.nontrivial(t > 0 && m.f != LIN);
	Vec3<Real> a = vec3<Real>(c), b = vec3<Real>(c);
	if (c.oneIn(6)) b = a;
	SHOWV(a); SHOWV(b);
	Real e = interpolationRatio(t, m.m);
	LD u = Num<Real>::u();
	auto is = [&](LD got, LD f, LD g) { CLOSE(got, f + (g - f) * e, 8 * u * (fabsl(f) + fabsl(g)) + LD(std::numeric_limits<Real>::min())); };
	Vec3<Real> r = mathlib::lerp(a, b, t, m.m);
	is(r.x, a.x, b.x); is(r.y, a.y, b.y); is(r.z, a.z, b.z);
	Vec2<Real> q = mathlib::lerp(Vec2<Real>(a.x, a.y), Vec2<Real>(b.x, b.y), t, m.m);
	is(q.x, a.x, b.x); is(q.y, a.y, b.y);
	is(mathlib::lerp(a.x, b.x, t, m.m), a.x, b.x);
}

// never decreasing, inside [0,1], no jumps
LAW(monotone, 2)
{
	LD u = Num<Real>::u();
	const Mode& m = MODES[c.draw(N_MODES)];
	Real t = ratio<Real>(c), w;
	switch (c.draw(3))
	{
	case 0: w = std::nextafter(t, Real(2)); break;
	case 1: w = t + mag<Real>(c, -24, -2); break;
	default: w = ratio<Real>(c);
	}
	if (w < t) std::swap(t, w);
	c.note(m.name); SHOW(t); SHOW(w);
	c.nontrivial(t > 0 && w < 1 && t < w && m.f != LIN);
	Real a = interpolationRatio(t, m.m), b = interpolationRatio(w, m.m);
	SHOW(a); SHOW(b);
	LD ta, tb, ra = ref(m, t, u, &ta), rb = ref(m, w, u, &tb);
	LD over = m.f == EXPO ? 2.6e-6L : 0;       // listed finding
	REQUIRE(LD(a) >= -over - 64 * u && LD(a) <= 1 + over + 64 * u);
	if (!(w >= Real(1) && over > 0)) REQUIREM(LD(b) >= LD(a) - ta - tb, "decreases by " + pbt::str(LD(a) - b));
	else REQUIREM(LD(b) >= LD(a) - over - 64 * u, "decreases by " + pbt::str(LD(a) - b));
	REQUIREM(LD(b) - a <= rb - ra + ta + tb + LD(std::numeric_limits<Real>::min()), "jumps by " + pbt::str(LD(b) - a));
}

// the out-curve is the in-curve seen from the other end; the in-out-curve is half of each
LAW(symmetry, 2)
{
	LD u = Num<Real>::u();
	int k = 5 + 3 * int(c.draw((N_MODES - 5) / 3));
	const Mode &in = MODES[k], &out = MODES[k + 1], &io = MODES[k + 2];
	c.note(in.name);
	Real t = ratio<Real>(c), s = Real(1) - t;
	SHOW(t);
	c.nontrivial(t > 0 && t < 1);
	if (!(s <= Real(1) && s >= Real(0)) || Real(1) - s != t) pbt::discard();      // exact pairs only
	LD ti, to, tm, tn;
	ref(in, s, u, &ti); ref(out, t, u, &to); ref(io, t, u, &tm); ref(io, s, u, &tn);
	Real a = interpolationRatio(t, out.m), b = interpolationRatio(s, in.m);
	SHOW(a); SHOW(b);
	CLOSE(a, 1 - LD(b), to + ti + 4 * u);
	Real p = interpolationRatio(t, io.m), q = interpolationRatio(s, io.m);
	if (t != Real(0.5) || in.f != EXPO) CLOSE(p, 1 - LD(q), tm + tn + 4 * u);
	Real h = t * Real(0.5);
	if (t < Real(1)) { ref(in, t, u, &ti); ref(io, h, u, &tm); CLOSE(interpolationRatio(h, io.m), LD(interpolationRatio(t, in.m)) / 2, ti / 2 + tm + 4 * u * LD(h)); }
	Real h2 = Real(0.5) + h;
	if (h2 - Real(0.5) == h && t < Real(1) && h2 < Real(1) && (t > 0 || in.f != EXPO2))
	{
		ref(out, t, u, &to); ref(io, h2, u, &tm);
		CLOSE(interpolationRatio(h2, io.m), 0.5L + LD(interpolationRatio(t, out.m)) / 2, to / 2 + tm + 4 * u);
	}
}

// plain modes are the in-modes of the same name
LAW(aliases, 0.5)
{
	Real t = ratio<Real>(c);
	SHOW(t);
	c.nontrivial(t > 0 && t < 1);
	LD u = Num<Real>::u();
	CLOSE(interpolationRatio(t, M::Parabolic), interpolationRatio(t, M::QuadraticIn), 4 * u);
	CLOSE(interpolationRatio(t, M::Cubic), interpolationRatio(t, M::CubicIn), 4 * u);
	CLOSE(interpolationRatio(t, M::Cosine), interpolationRatio(t, M::SinusoidalIn), 4 * u);
	REQUIRE(interpolationRatio(t, M::Linear) == (t < Real(0) ? Real(0) : t > Real(1) ? Real(1) : t));
}

FINDING(exponential_easing_overshoot, "interpolationRatio(1 - 1e-9, ExponentialIn) is 1.0000025, above 1 (and the curve then steps down to 1 at the end): the constants POW_2_M10 and INV_POW_2_0_MINUS_POW_2_M10 have six digits; existing tests pin the resulting values to 1e-10")
{
	return interpolationRatio(1 - 1e-9, M::ExponentialIn) > 1 + 1e-6;
}
