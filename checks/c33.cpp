// C33: HSV colours
#include "gen.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C33";
const char* pbt::RULE = "colours of the unit cube (greys, primaries, mixtures of two, ties between channels, nearly grey), hues over the full circle with every multiple of 60 and its neighbours and several turns outside it, "
	"all saturations and values, pairs of hues in every relative position; non-trivial: the colour is neither grey nor primary, or the hues differ and the ratio is strictly inside";

template <class R> std::string s(const ColorRGB<R>& v) { return "(" + pbt::str(v.r) + ", " + pbt::str(v.g) + ", " + pbt::str(v.b) + ")"; }
template <class R> std::string s(const ColorHSV<R>& v) { return "hsv(" + pbt::str(v.h) + ", " + pbt::str(v.s) + ", " + pbt::str(v.v) + ")"; }
#define SHOWC(X) do { if (c.verbose) c.note(std::string(#X " = ") + s(X)); } while (0)

template <class R> static R unitv(Case& c)
{
	switch (c.draw(5)) { case 0: return R(c.draw(9)) / R(8); case 1: return mag<R>(c, -24, 0); case 2: return R(1) - mag<R>(c, -20, -1); default: return between<R>(c, R(0), R(1)); }
}
template <class R> static ColorRGB<R> rgb(Case& c)
{
	ColorRGB<R> p(unitv<R>(c), unitv<R>(c), unitv<R>(c));
	switch (c.draw(6))
	{
	case 0: p.data()[c.draw(3)] = p.data()[c.draw(3)]; break;                     // ties
	case 1: p.g = p.b = p.r; break;
	case 2: p.data()[c.draw(3)] = R(0); break;
	case 3: { int i = int(c.draw(3)); p.data()[i] = R(c.draw(2)); p.data()[(i + 1) % 3] = R(c.draw(2)); break; }
	case 4: {        // nearly grey
		for (int i = 0; i < 3; i++) { R k = p.r; int n = c.range(-3, 3); for (int j = 0; j < n; j++) k = std::nextafter(k, R(2)); for (int j = 0; j < -n; j++) k = std::nextafter(k, R(0)); if (k > 1) k = 1; p.data()[i] = k; }
		break; }
	}
	return p;
}
template <class R> static R hue(Case& c)
{
	R h;
	switch (c.draw(5))
	{
	case 0: h = R(60 * c.range(0, 6)); break;
	case 1: { h = R(60 * c.range(0, 6)); int n = c.range(-4, 4); for (int j = 0; j < n; j++) h = std::nextafter(h, R(1000)); for (int j = 0; j < -n; j++) h = std::nextafter(h, R(-1000)); break; }
	case 2: h = mag<R>(c, -40, 4) * R(c.flip() ? 1 : -1); break;
	default: h = between<R>(c, R(0), R(360));
	}
	return h;
}

// reference, long double: channel values of a hue in [0,360)
static void toRgbRef(LD h, LD s, LD v, LD* o)
{
	h = fmodl(h, 360); if (h < 0) h += 360;
	// each channel is full within 60 degrees of its hue and empty beyond 120
	static const LD at[3] = {0, 120, 240};
	for (int i = 0; i < 3; i++)
	{
		LD d = fabsl(remainderl(h - at[i], 360)), f = d <= 60 ? 1 : d >= 120 ? 0 : (120 - d) / 60;
		o[i] = v * (1 - s * (1 - f));
	}
}

LAW(fromRGB, 2)
{
	LD u = Num<Real>::u();
	ColorRGB<Real> p = rgb<Real>(c);
	SHOWC(p);
	LD hi = std::max(p.r, std::max(p.g, p.b)), lo = std::min(p.r, std::min(p.g, p.b)), d = hi - lo;
	c.nontrivial(d > 0.01L && p.r != p.g && p.g != p.b && p.r != p.b && (lo > 0 || hi < 1));
	if (d == 0) c.label("grey");
	ColorHSV<Real> q = p.toHSV();
	SHOWC(q);
	REQUIRE(LD(q.v) == hi);
	if (d == 0) { REQUIRE(q.s == Real(0) && q.h == Real(0)); }
	else
	{
		CLOSE(q.s, d / hi, 4 * u * d / hi);
		REQUIRE(q.s > Real(0) && q.s <= Real(1) && q.h >= Real(0) && q.h <= Real(360));
		LD h = LD(p.r) == hi ? (LD(p.g) - p.b) / d : LD(p.g) == hi ? 2 + (LD(p.b) - p.r) / d : 4 + (LD(p.r) - p.g) / d;
		LD off = remainderl(LD(q.h) - 60 * h, 360);
		REQUIREM(fabsl(off) <= 360 * 4 * u, "hue off by " + pbt::str(off));
	}
	// and back
	ColorRGB<Real> r = q.toRGB();
	SHOWC(r);
	LD tol = 8 * u * hi + 32 * u * d;
	CLOSE(r.r, p.r, tol); CLOSE(r.g, p.g, tol); CLOSE(r.b, p.b, tol);
	// RGBA gives the same, whatever its alpha
	Real a = unit01<Real>(c);
	ColorHSV<Real> q4 = p.toRGBA(a).toHSV();
	REQUIRE(q4 == q && !(q4 != q));
	ColorRGBA<Real> r4 = q.toRGBA(a);
	REQUIRE(r4.r == r.r && r4.g == r.g && r4.b == r.b && r4.a == a);
	REQUIRE(q.toRGBA().a == Real(1));
}

LAW(toRGB, 2)
{
	LD u = Num<Real>::u();
	ColorHSV<Real> q(hue<Real>(c), unitv<Real>(c), unitv<Real>(c));
	if (c.draw(4) == 0) q.s = Real(1);
	int turns = c.draw(4) ? 0 : c.range(-4, 4);
	q.h = Real(LD(q.h) + 360 * turns);
	SHOWC(q);
	c.nontrivial(q.s > Real(0.01) && q.s < Real(1) && q.v > Real(0.01));
	ColorRGB<Real> r = q.toRGB();
	SHOWC(r);
	LD o[3];
	toRgbRef(q.h, q.s, q.v, o);
	LD tol = 8 * u * q.v + LD(q.v) * q.s * (fabsl(q.h) / 60 + 6) * 8 * u;
	CLOSE(r.r, o[0], tol); CLOSE(r.g, o[1], tol); CLOSE(r.b, o[2], tol);
	for (int i = 0; i < 3; i++) REQUIRE(r.data()[i] >= Real(0) && r.data()[i] <= q.v);
	REQUIRE(std::max(r.r, std::max(r.g, r.b)) == q.v || fabsl(LD(std::max(r.r, std::max(r.g, r.b))) - q.v) <= 4 * u * q.v);
	// and back
	ColorHSV<Real> b = r.toHSV();
	SHOWC(b);
	CLOSE(b.v, q.v, 4 * u * q.v);
	if (q.v > 0) CLOSE(b.s, q.s, 16 * u);
	if (q.v > 0 && q.s > 64 * u)
	{
		LD off = remainderl(LD(b.h) - q.h, 360);
		REQUIREM(fabsl(off) <= 60 * 16 * u * (1 + 1 / LD(q.s)) + 16 * u * fabsl(q.h), "hue off by " + pbt::str(off));
	}
}

LAW(interpolation, 2)
{
	LD u = Num<Real>::u();
	typedef ColorHSV<Real> C;
	C p(hue<Real>(c), unitv<Real>(c), unitv<Real>(c)), q(hue<Real>(c), unitv<Real>(c), unitv<Real>(c));
	switch (c.draw(5))
	{
	case 0: q.h = p.h; break;
	case 1: q.h = p.h + Real(180) + Real(c.range(-3, 3)) * mag<Real>(c, -12, 4); break;
	}
	for (C* k : {&p, &q}) { if (k->h < Real(0)) k->h = Real(0); if (k->h > Real(360)) k->h = Real(360); }
	Real t = unit01<Real>(c);
	SHOWC(p); SHOWC(q); SHOW(t);
	c.nontrivial(p.h != q.h && t > 0 && t < 1);
	C r = C::fromInterp(p, q, t);
	SHOWC(r);
	{ C k; REQUIRE(&k.interp(p, q, t) == &k); REQUIRE(k == r); }
	{ C k = p; k.interp(k, q, t); REQUIRE(k == r); }
	{ C k = q; k.interp(p, k, t); REQUIRE(k == r); }
	REQUIRE(C::fromInterp(p, q, Real(0)) == p);
	REQUIRE(C::fromInterp(p, q, Real(1)) == q);
	CLOSE(r.s, LD(p.s) + (LD(q.s) - p.s) * t, 8 * u);
	CLOSE(r.v, LD(p.v) + (LD(q.v) - p.v) * t, 8 * u);
	REQUIRE(r.h >= Real(0) && r.h <= Real(360));
	LD d = remainderl(LD(q.h) - p.h, 360), tol = 360 * 8 * u;
	LD off = remainderl(LD(r.h) - p.h - d * t, 360), other = remainderl(LD(r.h) - p.h + d * t, 360);
	bool tie = 180 - fabsl(d) <= tol;
	if (tie) c.label("opposite hues");
	REQUIREM(fabsl(off) <= tol || (tie && fabsl(other) <= tol), "hue off by " + pbt::str(off));
}

// light brighter or dimmer than the unit cube by a power of two: the same hue and saturation, as many times the value
LAW(bright, 1)
{
	typedef ColorHSV<Real> C; typedef ColorRGB<Real> R;
	int e = int(c.range(-30, 30)); Real k = std::ldexp(Real(1), e);
	R p = rgb<Real>(c);
	for (int i = 0; i < 3; i++) if (p.data()[i] != Real(0) && std::fabs(p.data()[i]) < Real(1e-7)) p.data()[i] = Real(0);
	c.show("exponent", e); SHOWC(p);
	c.nontrivial(e != 0 && p.r != p.g && p.g != p.b && p.r != p.b);
	R kp(p.r * k, p.g * k, p.b * k);
	C q = p.toHSV(), kq = kp.toHSV();
	SHOWC(q); SHOWC(kq);
	REQUIRE(kq.h == q.h && kq.s == q.s && kq.v == q.v * k);
	C z(hue<Real>(c), unitv<Real>(c), unitv<Real>(c));
	if (z.v < Real(1e-7)) z.v = Real(1);
	SHOWC(z);
	R r = z.toRGB(), kr = C(z.h, z.s, z.v * k).toRGB();
	REQUIRE(kr.r == r.r * k && kr.g == r.g * k && kr.b == r.b * k);
	// the way from one to the other
	Real t = unit01<Real>(c);
	C o(hue<Real>(c), unitv<Real>(c), unitv<Real>(c));
	for (C* m : {&z, &o}) { if (m->h < Real(0)) m->h = Real(0); if (m->h > Real(360)) m->h = Real(360); if (m->v < Real(1e-7)) m->v = Real(0); }
	SHOW(t); SHOWC(o);
	C w = C::fromInterp(z, o, t), kw = C::fromInterp(C(z.h, z.s, z.v * k), C(o.h, o.s, o.v * k), t);
	REQUIRE(kw.h == w.h && kw.s == w.s); if (w.v >= Real(1e-25)) REQUIRE(kw.v == w.v * k);
}

LAW(basics, 0.5)
{
	typedef ColorHSV<Real> C;
	C p(real<Real>(c), real<Real>(c), real<Real>(c));
	SHOWC(p);
	c.nontrivial(p.h != p.s && p.s != p.v && p.h != p.v);
	REQUIRE(p.data()[0] == p.h && p.data()[1] == p.s && p.data()[2] == p.v);
	REQUIRE(((const C&)p).data()[0] == p.h && ((const C&)p).data()[1] == p.s && ((const C&)p).data()[2] == p.v);
	C t;
	REQUIRE(&t.set(p.h, p.s, p.v) == &t && t.h == p.h && t.s == p.s && t.v == p.v);
	C k; k.set(p);
	REQUIRE(k.h == p.h && k.s == p.s && k.v == p.v && k == p && !(k != p));
	for (int i = 0; i < 3; i++) { k = p; k.data()[i] += Real(1) + std::fabs(k.data()[i]); REQUIRE(k != p && !(k == p) && p != k); }
	{ ColorHSV<float> f = p.template cast<float>(); REQUIRE(f.h == float(p.h) && f.s == float(p.s) && f.v == float(p.v)); }
	{ ColorHSV<double> f = p.template cast<double>(); REQUIRE(f.h == double(p.h) && f.s == double(p.s) && f.v == double(p.v)); }
	// named colours are the same in both models
	typedef ColorRGB<Real> R;
	REQUIRE(C::Black.toRGB() == R::Black && C::White.toRGB() == R::White && C::Red.toRGB() == R::Red && C::Green.toRGB() == R::Green && C::Blue.toRGB() == R::Blue);
	REQUIRE(R::Black.toHSV() == C::Black && R::White.toHSV() == C::White && R::Red.toHSV() == C::Red && R::Green.toHSV() == C::Green && R::Blue.toHSV() == C::Blue);
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	ColorHSV<Real> a, b; equality<Real>(c, a, b, { &a.h, &a.s, &a.v }, { &b.h, &b.s, &b.v });
}
