// C32: RGB and RGBA colours
#include "gen.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C32";
const char* pbt::RULE = "colours with independent channels (in and far outside the unit range, negative, equal ones), factors and ratios inside and outside [0,1], integer channels over all bytes and beyond, aliased operands; "
	"non-trivial: all channels of the operands differ";

template <class R> std::string s(const ColorRGB<R>& v) { return "(" + pbt::str(v.r) + ", " + pbt::str(v.g) + ", " + pbt::str(v.b) + ")"; }
template <class R> std::string s(const ColorRGBA<R>& v) { return "(" + pbt::str(v.r) + ", " + pbt::str(v.g) + ", " + pbt::str(v.b) + ", " + pbt::str(v.a) + ")"; }
#define SHOWC(X) do { if (c.verbose) c.note(std::string(#X " = ") + s(X)); } while (0)

template <class R> static R channel(Case& c)
{
	switch (c.draw(4)) { case 0: return R(c.draw(9)) / R(8); case 1: return real<R>(c); default: return between<R>(c, R(0), R(1)); }
}
template <class R> static void distinct(Case& c, R x, R y, R z, R w) { c.nontrivial(x != y && x != z && x != w && y != z && y != w && z != w); }

#define SAMEC(ACT, R_, G_, B_) do { auto t_ = (ACT); REQUIREM(t_.r == (R_) && t_.g == (G_) && t_.b == (B_), s(t_)); } while (0)
#define SAMECA(ACT, R_, G_, B_, A_) do { auto t_ = (ACT); REQUIREM(t_.r == (R_) && t_.g == (G_) && t_.b == (B_) && t_.a == (A_), s(t_)); } while (0)
#define NEARC(ACT, OP) do { auto t_ = (ACT); NEAR(t_.r, OP(r)); NEAR(t_.g, OP(g)); NEAR(t_.b, OP(b)); } while (0)

LAW(rgb, 2)
{
	typedef ColorRGB<Real> C;
	typedef Num<Real> N;
	C p(channel<Real>(c), channel<Real>(c), channel<Real>(c)), q(channel<Real>(c), channel<Real>(c), channel<Real>(c));
	Real k = divisor<Real>(c);
	SHOWC(p); SHOWC(q); SHOW(k);
	c.nontrivial(p.r != p.g && p.r != p.b && p.g != p.b && q.r != q.g && q.r != q.b && q.g != q.b);
	const C p0 = p, q0 = q;
#define OP(X) (N(p0.X) + N(q0.X))
	NEARC(p + q, OP);
	{ C t = p; REQUIRE(&(t += q) == &t); NEARC(t, OP); }
#undef OP
#define OP(X) (N(p0.X) - N(q0.X))
	NEARC(p - q, OP);
	{ C t = p; REQUIRE(&(t -= q) == &t); NEARC(t, OP); }
#undef OP
#define OP(X) (N(p0.X) * N(k))
	NEARC(p * k, OP);
	{ C t = p; REQUIRE(&(t *= k) == &t); NEARC(t, OP); }
#undef OP
#define OP(X) (N(p0.X) / N(k))
	NEARC(p / k, OP);
	{ C t = p; REQUIRE(&(t /= k) == &t); NEARC(t, OP); }
#undef OP
	SAMEC(-p, -p0.r, -p0.g, -p0.b);
	{ C t = p; t -= t; SAMEC(t, Real(0), Real(0), Real(0)); }
	{ C t = p; t += t; SAMEC(t, 2 * p0.r, 2 * p0.g, 2 * p0.b); }
	// dividing by a factor that is itself a channel of the colour
	if (p.r != 0) { C t = p; t = t / t.r; NEAR(t.g, N(p0.g) / N(p0.r)); NEAR(t.b, N(p0.b) / N(p0.r)); }
	{ C t = p; t *= t.r; NEAR(t.r, N(p0.r) * N(p0.r)); NEAR(t.g, N(p0.g) * N(p0.r)); NEAR(t.b, N(p0.b) * N(p0.r)); }
	SAMEC(p, p0.r, p0.g, p0.b); SAMEC(q, q0.r, q0.g, q0.b);
	// comparisons see every channel
	REQUIRE(p == p0 && !(p != p0));
	for (int i = 0; i < 3; i++)
	{
		C t = p; t.data()[i] = p.data()[i] + Real(1) + std::fabs(p.data()[i]);
		REQUIRE(!(t == p) && t != p && !(p == t) && p != t);
	}
	// access, setters, copies
	REQUIRE(p.data()[0] == p.r && p.data()[1] == p.g && p.data()[2] == p.b);
	REQUIRE(((const C&)p).data()[0] == p.r && ((const C&)p).data()[1] == p.g && ((const C&)p).data()[2] == p.b);
	{ C t; REQUIRE(&t.set(p0.r, p0.g, p0.b) == &t); SAMEC(t, p0.r, p0.g, p0.b); t.set(q); SAMEC(t, q0.r, q0.g, q0.b); t.set(t); SAMEC(t, q0.r, q0.g, q0.b); }
	SAMEC(C(k), k, k, k);
	{ ColorRGB<double> t = p.template cast<double>(); SAMEC(t, double(p.r), double(p.g), double(p.b)); }
	{ ColorRGB<float> t = p.template cast<float>(); SAMEC(t, float(p.r), float(p.g), float(p.b)); }
	// to and from RGBA
	SAMECA(p.toRGBA(), p0.r, p0.g, p0.b, Real(1));
	SAMECA(p.toRGBA(k), p0.r, p0.g, p0.b, k);
	SAMEC(p.toRGBA(k).toRGB(), p0.r, p0.g, p0.b);
}

LAW(rgba, 2)
{
	typedef ColorRGBA<Real> C;
	typedef Num<Real> N;
	C p(channel<Real>(c), channel<Real>(c), channel<Real>(c), channel<Real>(c)), q(channel<Real>(c), channel<Real>(c), channel<Real>(c), channel<Real>(c));
	Real k = divisor<Real>(c);
	SHOWC(p); SHOWC(q); SHOW(k);
	distinct(c, p.r, p.g, p.b, p.a);
	const C p0 = p, q0 = q;
	// the colour channels as in RGB, alpha is that of the left operand
#define OP(X) (N(p0.X) + N(q0.X))
	NEARC(p + q, OP); REQUIRE((p + q).a == p0.a);
	{ C t = p; REQUIRE(&(t += q) == &t); NEARC(t, OP); REQUIRE(t.a == p0.a); }
#undef OP
#define OP(X) (N(p0.X) - N(q0.X))
	NEARC(p - q, OP); REQUIRE((p - q).a == p0.a);
	{ C t = p; REQUIRE(&(t -= q) == &t); NEARC(t, OP); REQUIRE(t.a == p0.a); }
#undef OP
#define OP(X) (N(p0.X) * N(k))
	NEARC(p * k, OP); REQUIRE((p * k).a == p0.a);
	{ C t = p; REQUIRE(&(t *= k) == &t); NEARC(t, OP); REQUIRE(t.a == p0.a); }
#undef OP
#define OP(X) (N(p0.X) / N(k))
	NEARC(p / k, OP); REQUIRE((p / k).a == p0.a);
	{ C t = p; REQUIRE(&(t /= k) == &t); NEARC(t, OP); REQUIRE(t.a == p0.a); }
#undef OP
	SAMECA(-p, -p0.r, -p0.g, -p0.b, p0.a);
	{ C t = p; t -= t; SAMECA(t, Real(0), Real(0), Real(0), p0.a); }
	{ C t = p; t += t; SAMECA(t, 2 * p0.r, 2 * p0.g, 2 * p0.b, p0.a); }
	// the same colour channels as the RGB operations
	ColorRGB<Real> a3 = p.toRGB(), b3 = q.toRGB(), t3 = a3 + b3;
	SAMEC(p + q, t3.r, t3.g, t3.b);
	SAMECA(p, p0.r, p0.g, p0.b, p0.a); SAMECA(q, q0.r, q0.g, q0.b, q0.a);
	REQUIRE(p == p0 && !(p != p0));
	for (int i = 0; i < 4; i++)
	{
		C t = p; t.data()[i] = p.data()[i] + Real(1) + std::fabs(p.data()[i]);
		REQUIRE(!(t == p) && t != p && !(p == t) && p != t);
	}
	for (int i = 0; i < 4; i++) REQUIRE(p.data()[i] == (i == 0 ? p.r : i == 1 ? p.g : i == 2 ? p.b : p.a) && ((const C&)p).data()[i] == p.data()[i]);
	{ C t; REQUIRE(&t.set(p0.r, p0.g, p0.b, p0.a) == &t); SAMECA(t, p0.r, p0.g, p0.b, p0.a); t.set(q); SAMECA(t, q0.r, q0.g, q0.b, q0.a); t.set(p0.r, p0.g, p0.b); SAMECA(t, p0.r, p0.g, p0.b, Real(1)); }
	SAMECA(C(k), k, k, k, Real(1));
	SAMECA(C(k, p0.a), k, k, k, p0.a);
	SAMECA(C(p0.r, p0.g, p0.b), p0.r, p0.g, p0.b, Real(1));
	{ ColorRGBA<double> t = p.template cast<double>(); SAMECA(t, double(p.r), double(p.g), double(p.b), double(p.a)); }
	{ ColorRGBA<float> t = p.template cast<float>(); SAMECA(t, float(p.r), float(p.g), float(p.b), float(p.a)); }
	SAMEC(p.toRGB(), p0.r, p0.g, p0.b);
}

LAW(interpolation, 1)
{
	typedef ColorRGBA<Real> C4;
	typedef ColorRGB<Real> C3;
	typedef Num<Real> N;
	C4 p(channel<Real>(c), channel<Real>(c), channel<Real>(c), channel<Real>(c)), q(channel<Real>(c), channel<Real>(c), channel<Real>(c), channel<Real>(c));
	Real t = c.draw(8) == 7 ? real<Real>(c) : unit01<Real>(c);
	SHOWC(p); SHOWC(q); SHOW(t);
	distinct(c, p.r - q.r, p.g - q.g, p.b - q.b, p.a - q.a);
	C3 p3 = p.toRGB(), q3 = q.toRGB();
#define OP(X) (N(p.X) + (N(q.X) - N(p.X)) * N(t))
	C4 r = C4::fromInterp(p, q, t);
	C3 r3 = C3::fromInterp(p3, q3, t);
	NEARC(r, OP); NEAR(r.a, OP(a));
	NEARC(r3, OP);
	{ C4 k; REQUIRE(&k.interp(p, q, t) == &k); SAMECA(k, r.r, r.g, r.b, r.a); }
	{ C4 k = p; k.interp(k, q, t); SAMECA(k, r.r, r.g, r.b, r.a); }
	{ C4 k = q; k.interp(p, k, t); SAMECA(k, r.r, r.g, r.b, r.a); }
	{ C3 k; REQUIRE(&k.interp(p3, q3, t) == &k); SAMEC(k, r3.r, r3.g, r3.b); }
	{ C3 k = p3; k.interp(k, q3, t); SAMEC(k, r3.r, r3.g, r3.b); }
	{ C3 k = q3; k.interp(p3, k, t); SAMEC(k, r3.r, r3.g, r3.b); }
	// the ends are exact
	SAMECA(C4::fromInterp(p, q, Real(0)), p.r, p.g, p.b, p.a);
	SAMECA(C4::fromInterp(p, q, Real(1)), q.r, q.g, q.b, q.a);
	SAMEC(C3::fromInterp(p3, q3, Real(0)), p.r, p.g, p.b);
	SAMEC(C3::fromInterp(p3, q3, Real(1)), q.r, q.g, q.b);
}

LAW(bytes, 1)
{
	LD u = Num<Real>::u();
	int v[4];
	for (int i = 0; i < 4; i++) v[i] = c.draw(8) ? int(c.draw(256)) : c.range(-1000, 1000);
	c.show("r", v[0]); c.show("g", v[1]); c.show("b", v[2]); c.show("a", v[3]);
	distinct(c, v[0], v[1], v[2], v[3]);
	ColorRGB<Real> p(v[0], v[1], v[2]);
	ColorRGBA<Real> q(v[0], v[1], v[2], v[3]), o(v[0], v[1], v[2]);
	const Real* d[3] = {p.data(), q.data(), o.data()};
	for (int k = 0; k < 3; k++)
		for (int i = 0; i < (k == 1 ? 4 : 3); i++)
		{
			CLOSE(d[k][i], LD(v[i]) / 255, u * fabsl(LD(v[i]) / 255));
			// and back
			REQUIRE(int(std::floor(double(d[k][i]) * 255 + 0.5)) == v[i]);
			if (v[i] == 255) REQUIRE(d[k][i] == Real(1));
			if (v[i] == 0) REQUIRE(d[k][i] == Real(0));
		}
	REQUIRE(o.a == Real(1));
}

LAW(constants, 0.05)
{
	typedef ColorRGBA<Real> C4;
	typedef ColorRGB<Real> C3;
	c.nontrivial(); c.draw(2);
	Real z(0), o(1);
	SAMEC(C3::Black, z, z, z); SAMEC(C3::White, o, o, o); SAMEC(C3::Red, o, z, z); SAMEC(C3::Green, z, o, z); SAMEC(C3::Blue, z, z, o);
	SAMECA(C4::Black, z, z, z, o); SAMECA(C4::White, o, o, o, o); SAMECA(C4::Red, o, z, z, o); SAMECA(C4::Green, z, o, z, o); SAMECA(C4::Blue, z, z, o, o);
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	switch (c.draw(2))
	{
	case 0: { ColorRGB<Real> a, b; equality<Real>(c, a, b, { &a.r, &a.g, &a.b }, { &b.r, &b.g, &b.b }); break; }
	default: { ColorRGBA<Real> a, b; equality<Real>(c, a, b, { &a.r, &a.g, &a.b, &a.a }, { &b.r, &b.g, &b.b, &b.a }); break; }
	}
}
