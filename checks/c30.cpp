// C30: scalar helpers and constants
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C30";
const char* pbt::RULE = "finite arguments from subnormal to near the largest value, both signs, exact multiples and half-multiples of the modulus and their neighbours, arguments at, just beyond and far beyond the ends of [-1,1], "
	"intervals of every width; non-trivial: the arguments are not zero and not equal";

template <class Real> static Real any(Case& c)
{
	switch (c.draw(8))
	{
	case 0: return Real(0);
	case 1: { Real m = mag<Real>(c, std::is_same<Real, float>::value ? -126 : -1022, std::is_same<Real, float>::value ? 127 : 1023); return c.flip() ? -m : m; }
	case 2: { static const double k[] = {1, -1, 0.5, -0.5, 2, -2}; return Real(k[c.draw(6)]); }
	case 3: return std::numeric_limits<Real>::max() * (c.flip() ? 1 : -1);
	case 4: return std::numeric_limits<Real>::min() * (c.flip() ? 1 : -1);
	default: return real<Real>(c);
	}
}
static int anyInt(Case& c)
{
	switch (c.draw(4))
	{
	case 0: return c.range(-3, 3);
	case 1: { static const int k[] = {0, INT32_MAX, INT32_MIN, -1, INT32_MIN + 1}; return k[c.draw(5)]; }
	case 2: return c.range(-100, 100);
	default: return int(int64_t(c.draw(1ull << 32)) - (int64_t(1) << 31));
	}
}

LAW(absMinMax, 1)
{
	Real a = any<Real>(c), b = c.draw(8) ? any<Real>(c) : a;
	SHOW(a); SHOW(b);
	c.nontrivial(a != b && a != 0 && b != 0);
	REQUIRE(mathlib::abs(a) == std::fabs(a));
	REQUIRE(mathlib::abs(-a) == std::fabs(a));
	Real lo = mathlib::min(a, b), hi = mathlib::max(a, b);
	REQUIRE(lo == (a < b ? a : b) && hi == (a < b ? b : a));
	REQUIRE(mathlib::min(b, a) == lo && mathlib::max(b, a) == hi);
	int i = anyInt(c), j = c.draw(8) ? anyInt(c) : i;
	SHOW(i); SHOW(j);
	REQUIRE(mathlib::min(i, j) == (i < j ? i : j));
	REQUIRE(mathlib::max(i, j) == (i < j ? j : i));
	if (i != INT32_MIN) REQUIRE(mathlib::abs(i) == (i < 0 ? -i : i));
}

LAW(clipped, 1)
{
	Real v = any<Real>(c), a = any<Real>(c), b = any<Real>(c);
	switch (c.draw(6)) { case 0: v = a; break; case 1: v = b; break; case 2: b = a; break; }
	if (a > b) std::swap(a, b);
	SHOW(v); SHOW(a); SHOW(b);
	c.nontrivial(a != b);
	Real r = mathlib::clippedBetween(v, a, b);
	REQUIRE(r == (v < a ? a : v > b ? b : v));
	REQUIRE(mathlib::clippedBetween(r, a, b) == r);
	int i = anyInt(c), lo = anyInt(c), hi = anyInt(c);
	if (lo > hi) std::swap(lo, hi);
	SHOW(i); SHOW(lo); SHOW(hi);
	REQUIRE(mathlib::clippedBetween(i, lo, hi) == (i < lo ? lo : i > hi ? hi : i));
}

LAW(units, 1)
{
	Real a = c.draw(3) ? real<Real>(c) : (mag<Real>(c, -100, 100) * (c.flip() ? 1 : -1));
	SHOW(a);
	c.nontrivial(a != 0);
	LD u = Num<Real>::u();
	CLOSE(mathlib::degreeToRadian(a), LD(a) * PIL / 180, 4 * u * fabsl(a));
	CLOSE(mathlib::radianToDegree(a), LD(a) * 180 / PIL, 8 * u * fabsl(a) * 60);
	Real r = mathlib::degreeToRadian(a), d = mathlib::radianToDegree(a);
	CLOSE(mathlib::radianToDegree(r), a, 8 * u * fabsl(a));
	CLOSE(mathlib::degreeToRadian(d), a, 8 * u * fabsl(a));
	CLOSE(mathlib::degreeToRadian(Real(180)), PIL, 4 * u);
	CLOSE(mathlib::radianToDegree(Constants<Real>::PI), 180, 180 * 2 * u);
}

LAW(inverse, 1)
{
	LD u = Num<Real>::u();
	Real s;
	switch (c.draw(5))
	{
	case 0: { s = Real(1); int n = c.range(-8, 8); for (int i = 0; i < n; i++) s = std::nextafter(s, Real(2)); for (int i = 0; i < -n; i++) s = std::nextafter(s, Real(0)); if (c.flip()) s = -s; break; }
	case 1: s = any<Real>(c); break;
	case 2: s = (c.flip() ? 1 : -1) * mag<Real>(c, -30, 0); break;
	default: s = between<Real>(c, Real(-1.2), Real(1.2));
	}
	SHOW(s);
	c.nontrivial(s != 0);
	LD k = s > 1 ? 1 : s < -1 ? -1 : LD(s);
	Real as = mathlib::asin(s), ac = mathlib::acos(s);
	CLOSE(as, asinl(k), 2 * u * fabsl(asinl(k)));
	CLOSE(ac, acosl(k), 2 * u * acosl(k));
	// odd, and complementary
	REQUIRE(mathlib::asin(-s) == -as);
	CLOSE(mathlib::acos(-s), PIL - LD(ac), 4 * u * PIL);
	CLOSE(ac, PIL / 2 - LD(as), 4 * u);
}

template <class Real> static void modulus(Case& c, Real& x, Real& y)
{
	switch (c.draw(4))
	{
	case 0: y = Real(1 + int(c.draw(12))); break;
	case 1: y = Constants<Real>::PI_TIMES_2; break;
	case 2: y = Real(360); break;
	default: y = mag<Real>(c, -12, 12);
	}
	switch (c.draw(6))
	{
	case 0: x = Real(LD(y) * c.range(-12, 12) / 2); break;
	case 1: x = Real(LD(y) * c.range(-12, 12) / 2); { int n = c.range(-3, 3); for (int i = 0; i < n; i++) x = std::nextafter(x, Real(1e30)); for (int i = 0; i < -n; i++) x = std::nextafter(x, Real(-1e30)); } break;
	case 2: x = any<Real>(c); break;
	case 3: x = (c.flip() ? 1 : -1) * mag<Real>(c, -60, -4); break;
	default: x = between<Real>(c, Real(-10), Real(10)) * y;
	}
}

LAW(remainders, 2)
{
	LD u = Num<Real>::u();
	Real x, y;
	modulus(c, x, y);
	SHOW(x); SHOW(y);
	c.nontrivial(x != 0 && fabsl(x) >= y / 2);
	// plain: the sign of the argument, below the modulus, exactly congruent
	Real r = mathlib::fmod(x, y);
	LD ex = fmodl(x, y);
	REQUIRE(LD(r) == ex);
	REQUIRE(mathlib::fmod(x, -y) == r);
	REQUIRE(mathlib::fmod(-x, y) == -r);
	REQUIRE(std::fabs(r) < y);
	// positive
	Real p = mathlib::fmodPositive(x, y);
	LD exp = ex < 0 ? ex + y : ex;
	REQUIREM(p >= Real(0) && p < y, p);
	REQUIRE(fabsl(LD(p) - exp) <= u * y || (p == Real(0) && y - exp <= u * y));
	if (x >= 0) REQUIRE(LD(p) == ex);
	if (ex == 0) REQUIRE(p == Real(0));
	// centred
	if (fabsl(x) > 1e6L * y) return;
	LD tol = 4 * u * (fabsl(x) + y);
	Real q = mathlib::fmodCentered(x, y);
	REQUIREM(q >= -y / 2 && q < y / 2 * (1 + 2 * u), q);
	LD off = remainderl(LD(q) - x, y);
	REQUIREM(fabsl(off) <= tol, "not congruent: " + pbt::str(q));
	LD exq = remainderl(x, y);
	if (LD(y) / 2 - fabsl(exq) > tol) CLOSE(q, exq, tol);
	if (LD(y) / 2 - fabsl(x) > tol) CLOSE(q, x, 2 * u * y);
	// whole moduli do not matter
	int n = c.range(-20, 20);
	Real x2 = Real(LD(x) + LD(n) * y);
	LD d2 = LD(x2) - x - LD(n) * y;
	if (LD(y) / 2 - fabsl(exq) > 64 * tol) CLOSE(mathlib::fmodCentered(x2, y), LD(q) + d2, 64 * tol);
}

LAW(distances, 1)
{
	Vec3<Real> a = vec3<Real>(c), b = vec3<Real>(c);
	if (c.draw(8) == 0) b = a;
	SHOWV(a); SHOWV(b);
	c.nontrivial(a.x != b.x && a.y != b.y && a.z != b.z);
	V3<Real> d = V3<Real>(b) - V3<Real>(a);
	NEAR(mathlib::distanceSqr(a, b), dot(d, d));
	NEAR(mathlib::distance(a, b), length(d));
	Vec2<Real> p(a.x, a.y), q(b.x, b.y);
	V2<Real> e = V2<Real>(q) - V2<Real>(p);
	NEAR(mathlib::distanceSqr(p, q), dot(e, e));
	NEAR(mathlib::distance(p, q), length(e));
	REQUIRE(mathlib::distance(a, b) == mathlib::distance(b, a));
	REQUIRE(mathlib::distance(p, q) == mathlib::distance(q, p));
	REQUIRE(mathlib::distance(a, a) == Real(0) && mathlib::distance(p, p) == Real(0));
}

LAW(constants, 0.1)
{
	typedef Constants<Real> K;
	LD u = Num<Real>::u();
	c.nontrivial(); c.draw(2);
	REQUIRE(K::PI == Real(PIL));
	REQUIRE(K::PI_TIMES_2 == Real(2) * K::PI);
	REQUIRE(K::PI_OVER_2 == K::PI / Real(2));
	REQUIRE(K::PI_OVER_4 == K::PI / Real(4));
	REQUIRE(K::PI_OVER_8 == K::PI / Real(8));
	REQUIRE(K::PI_OVER_16 == K::PI / Real(16));
	CLOSE(K::PI_OVER_3, PIL / 3, 2 * u);
	CLOSE(K::PI_OVER_6, PIL / 6, 2 * u);
	REQUIRE(K::MAX_VALUE == std::numeric_limits<Real>::max());
	REQUIRE(K::MAX_NEG_VALUE == -std::numeric_limits<Real>::max());
	REQUIRE(K::MIN_VALUE == std::numeric_limits<Real>::min());
}

LAW1(successors, 0.1)
{
	c.nontrivial();
	Coord k = coord3<float>(c);
	REQUIRE(next3D(k) != k);
	REQUIRE(next3D(next3D(next3D(k))) == k);
	REQUIRE(next3D(Coord::X) == Coord::Y && next3D(Coord::Y) == Coord::Z && next3D(Coord::Z) == Coord::X);
	Coord j = coord2<float>(c);
	REQUIRE(next2D(j) != j && next2D(next2D(j)) == j && next2D(j) != Coord::Z);
	REQUIRE(next2D(Coord::Undefined) == Coord::Undefined && next3D(Coord::Undefined) == Coord::Undefined && next2D(Coord::Z) == Coord::Undefined);
}
