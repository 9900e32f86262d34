// C04: direction interpolation of vectors
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C04";
const char* pbt::RULE = "pairs of vectors at every relative angle (acute, right, obtuse, nearly opposite, parallel, wrapping across the branch cut) and lengths, "
	"ratios in [0,1] with both ends, angle limits from 0 to beyond a half turn; non-trivial: both vectors non-zero, not parallel, 2D pairs not within 0.01 of opposite (3D pairs that are count when the ratio is not an end)";

struct W { LD x, y, z; };
static W mul(W a, LD k) { return W{a.x * k, a.y * k, a.z * k}; }
static W add(W a, W b) { return W{a.x + b.x, a.y + b.y, a.z + b.z}; }
static LD dt(W a, W b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static W cr(W a, W b) { return W{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD ln(W a) { return sqrtl(dt(a, a)); }
template <class R> static LD off(const Vec3<R>& v, W e) { return ln(W{v.x - e.x, v.y - e.y, v.z - e.z}); }
template <class R> static LD off(const Vec2<R>& v, LD x, LD y) { return len(v.x - x, v.y - y); }

template <class R> static R limit(Case& c)
{
	switch (c.draw(5))
	{
	case 0: return R(0);
	case 1: return R(PIL) * R(1 + c.draw(3));
	case 2: return R(LD(1 + c.draw(12)) * PIL / 12);
	default: return between<R>(c, R(0.001), R(3.3));
	}
}

LAW(clerp2, 1)
{
	typedef Vec2<Real> V;
	V u, v;
	if (c.flip())
	{
		// by polar form: relative angles and branch cut crossings under control
		LD a = LD(angle<Real>(c)), d = c.oneIn(4) ? LD(c.range(-23, 23)) * PIL / 24 : LD(between<Real>(c, Real(-3.13), Real(3.13)));
		LD lu = LD(positive<Real>(c)), lv = LD(positive<Real>(c));
		u = V(Real(cosl(a) * lu), Real(sinl(a) * lu));
		v = V(Real(cosl(a + d) * lv), Real(sinl(a + d) * lv));
	}
	else { u = nonzero2<Real>(c); v = nonzero2<Real>(c); }
	Real t = unit01<Real>(c), m = limit<Real>(c);
	SHOWV(u); SHOWV(v); SHOW(t); SHOW(m);
	LD eps = Num<Real>::u();
	LD au = atan2l(u.y, u.x), lu = len(u.x, u.y), lv = len(v.x, v.y);
	LD d = remainderl(atan2l(v.y, v.x) - au, 2 * PIL);
	LD big = lu > lv ? lu : lv, tol = 64 * eps * big;
	bool opposite = fabsl(d) > PIL - 0.01L;
	if (fabsl(d) > PIL / 2) c.label("obtuse");
	if (fabsl(atan2l(v.y, v.x) - au) > PIL) c.label("wraps");
	c.nontrivial(!opposite && fabsl(d) > 1e-3L);

	V w = V::fromClerp(u, v, t);
	if (t == 0) SAME2(w, u);
	if (t == 1) SAME2(w, v);
	LD l = lu + (lv - lu) * t;
	REQUIREM(fabsl(len(w.x, w.y) - l) <= tol, "length is not interpolated");
	if (!opposite)
		REQUIREM(off(w, cosl(au + d * t) * l, sinl(au + d * t) * l) <= tol, "fromClerp: got " + s(w) + " expected " +
			pbt::str(cosl(au + d * t) * l) + ", " + pbt::str(sinl(au + d * t) * l));
	{ V x(9, 9); REQUIRE(&x.clerp(u, v, t) == &x); SAME2(x, w); }
	{ V x = u; x.clerp(x, v, t); SAME2(x, w); }
	{ V x = v; x.clerp(u, x, t); SAME2(x, w); }

	V q = V::fromClerpMaxAngle(u, v, m);
	{ V x(9, 9); REQUIRE(&x.clerpMaxAngle(u, v, m) == &x); SAME2(x, q); }
	{ V x = u; x.clerpMaxAngle(x, v, m); SAME2(x, q); }
	{ V x = v; x.clerpMaxAngle(u, x, m); SAME2(x, q); }
	if (m == 0) { SAME2(q, u); return; }
	LD turn = fabsl(d) > LD(m) ? LD(m) : fabsl(d), f = fabsl(d) > 64 * eps ? turn / fabsl(d) : 1;
	LD fl = lu + (lv - lu) * f, ftol = tol + fabsl(lv - lu) * (fabsl(d) > 64 * eps ? 64 * eps / fabsl(d) : 0);
	REQUIREM(fabsl(len(q.x, q.y) - fl) <= ftol, "limited: length " + pbt::str(len(q.x, q.y)) + " expected " + pbt::str(fl));
	if (!opposite)
	{
		LD a = au + (d < 0 ? -turn : turn);
		REQUIREM(off(q, cosl(a) * fl, sinl(a) * fl) <= ftol, "fromClerpMaxAngle: got " + s(q));
	}
	if (turn < LD(m)) c.label("limit reached the end");
}

LAW(slerp3, 1)
{
	typedef Vec3<Real> V;
	V u, v;
	if (c.flip())
	{
		// v at a chosen angle from u
		V a = unit3<Real>(c), b = unit3<Real>(c);
		W A{a.x, a.y, a.z}, B{b.x, b.y, b.z};
		W p = add(B, mul(A, -dt(A, B)));
		if (ln(p) < 0.01L) p = fabsl(A.x) < 0.5L ? cr(A, W{1, 0, 0}) : cr(A, W{0, 1, 0});
		p = mul(p, 1 / ln(p));
		LD d = c.oneIn(4) ? LD(c.range(0, 23)) * PIL / 24 : LD(between<Real>(c, Real(0), Real(3.13)));
		LD lu = LD(positive<Real>(c)), lv = LD(positive<Real>(c));
		W r = mul(add(mul(A, cosl(d)), mul(p, sinl(d))), lv);
		u = V(Real(A.x * lu), Real(A.y * lu), Real(A.z * lu));
		v = V(Real(r.x), Real(r.y), Real(r.z));
	}
	else if (c.oneIn(8)) { u = V(0, 0, 0); v = vec3<Real>(c, -6, 6); if (c.flip()) { V x = u; u = v; v = x; } c.label("zero operand"); }
	else if (c.oneIn(8))
	{
		// opposite, exactly or up to a rounding or a small tilt
		u = nonzero3<Real>(c);
		Real k = c.flip() ? Real(ldexp(1.0, int(c.range(-3, 3)))) : positive<Real>(c);
		v = V(-u.x * k, -u.y * k, -u.z * k);
		if (c.flip()) { Real e = Real(ldexp(1.0, -int(c.range(3, sizeof(Real) == 4 ? 22 : 50)))); v.x += e * v.y; v.z -= e * v.x; }
	}
	else { u = nonzero3<Real>(c); v = nonzero3<Real>(c); }
	Real t = unit01<Real>(c), m = limit<Real>(c);
	SHOWV(u); SHOWV(v); SHOW(t); SHOW(m);
	LD eps = Num<Real>::u();
	W U{u.x, u.y, u.z}, B{v.x, v.y, v.z};
	LD lu = ln(U), lv = ln(B), big = lu > lv ? lu : lv;
	LD l = lu + (lv - lu) * t, tol = 64 * eps * big;
	W lin = add(U, mul(add(B, mul(U, -1)), t));

	V w = V::fromSlerp(u, v, t);
	{ V x(9, 9, 9); REQUIRE(&x.slerp(u, v, t) == &x); SAME3(x, w); }
	{ V x = u; x.slerp(x, v, t); SAME3(x, w); }
	{ V x = v; x.slerp(u, x, t); SAME3(x, w); }
	V q = V::fromSlerpMaxAngle(u, v, m);
	{ V x(9, 9, 9); REQUIRE(&x.slerpMaxAngle(u, v, m) == &x); SAME3(x, q); }
	{ V x = u; x.slerpMaxAngle(x, v, m); SAME3(x, q); }
	{ V x = v; x.slerpMaxAngle(u, x, m); SAME3(x, q); }
	if (t == 0) SAME3(w, u);
	if (t == 1) SAME3(w, v);
	if (m == 0) SAME3(q, u);

	if (lu == 0 || lv == 0)
	{
		REQUIREM(off(w, lin) <= tol, "a zero vector interpolates linearly");
		return;
	}
	W a = mul(U, 1 / lu), b = mul(B, 1 / lv);
	LD sn = ln(cr(a, b)), d = atan2l(sn, dt(a, b));
	W p = add(b, mul(a, -dt(a, b)));
	if (ln(p) > 0) p = mul(p, 1 / ln(p));
	if (d > PIL / 2) c.label("obtuse");
	else if (sn < 0.05L) c.label("small angle");
	if (d > PIL - 0.01L)
	{
		// the plane is (nearly) undetermined, but not the length and the angle turned
		c.label(sn <= 8 * eps ? "opposite" : "nearly opposite");
		LD slack = 4096 * eps + (sn > 512 * eps ? 64 * eps / sn : 0);
		auto turned = [&](const V& r, LD frac, const char* what)
		{
			LD want = lu + (lv - lu) * frac, gotl = ln(W{r.x, r.y, r.z});
			REQUIREM(fabsl(gotl - want) <= tol + fabsl(lv - lu) * slack, std::string(what) + ": length " + pbt::str(gotl) + " expected " + pbt::str(want));
			if (gotl <= 1024 * tol) return;	// the rounding of the length has taken the direction
			W k{r.x / gotl, r.y / gotl, r.z / gotl};
			LD A = atan2l(ln(cr(a, k)), dt(a, k)), B = atan2l(ln(cr(b, k)), dt(b, k));
			REQUIREM(fabsl(A - d * frac) <= slack, std::string(what) + ": turned by " + pbt::str(A) + " expected " + pbt::str(d * frac));
			REQUIREM(fabsl(B - d * (1 - frac)) <= slack + (PIL - d), std::string(what) + ": " + pbt::str(B) + " left to turn, expected " + pbt::str(d * (1 - frac)));
		};
		if (t != 0 && t != 1) { turned(w, t, "fromSlerp"); c.nontrivial(); }
		if (m != 0) turned(q, LD(m) > d ? 1 : LD(m) / d, "fromSlerpMaxAngle");
		return;
	}
	c.nontrivial(d > 1e-3L);

	W e = mul(add(mul(a, cosl(d * t)), mul(p, sinl(d * t))), l);
	LD stol = 64 * eps * big / (sn > 0.01L ? sn : 0.01L);
	bool ok = off(w, e) <= stol;
	// below about three degrees a straight blend is documented behaviour
	if (!ok && d < 0.0502L && off(w, lin) <= tol) ok = true;
	REQUIREM(ok, "fromSlerp: got " + s(w) + " expected " + pbt::str(e.x) + ", " + pbt::str(e.y) + ", " + pbt::str(e.z));

	if (m == 0) return;
	LD turn = d > LD(m) ? LD(m) : d, f = d > 64 * eps ? turn / d : 1;
	LD fl = lu + (lv - lu) * f, ftol = 64 * eps * big / (d > 1.5L ? (sn > 0.01L ? sn : 0.01L) : 1) + fabsl(lv - lu) * (d > 64 * eps ? 64 * eps / d : 0);
	W g = mul(add(mul(a, cosl(turn)), mul(p, sinl(turn))), fl);
	REQUIREM(off(q, g) <= ftol, "fromSlerpMaxAngle: got " + s(q) + " expected " + pbt::str(g.x) + ", " + pbt::str(g.y) + ", " + pbt::str(g.z));
	LD got = atan2l(ln(cr(a, W{q.x, q.y, q.z})), dt(a, W{q.x, q.y, q.z}));
	REQUIREM(got <= LD(m) + 64 * eps + ftol / (fl > 0 ? fl : 1), "turned by more than the limit");
	if (turn < LD(m)) c.label("limit reached the end");
}

// at any size the same turn is made
LAW(scaled, 0.3)
{
	typedef Vec3<Real> V;
	V u = nonzero3<Real>(c), v = nonzero3<Real>(c);
	Real k = pow2<Real>(c), t = unit01<Real>(c), m = limit<Real>(c);
	SHOWV(u); SHOWV(v); SHOW(k); SHOW(t); SHOW(m);
	c.nontrivial(k != 1);
	LD big = len(u.x, u.y, u.z) + len(v.x, v.y, v.z), tol = 256 * Num<Real>::u() * big;
	auto like = [&](const V& x, const V& y) { CLOSE(Real(x.x / k), y.x, tol); CLOSE(Real(x.y / k), y.y, tol); CLOSE(Real(x.z / k), y.z, tol); };
	V x = V::fromSlerp(u * k, v * k, t), y = V::fromSlerp(u, v, t);
	like(x, y);
	x = V::fromSlerpMaxAngle(u * k, v * k, m); y = V::fromSlerpMaxAngle(u, v, m);
	like(x, y);
	Vec2<Real> a = nonzero2<Real>(c), b = nonzero2<Real>(c);
	Vec2<Real> p = Vec2<Real>::fromClerp(a * k, b * k, t), q = Vec2<Real>::fromClerp(a, b, t);
	like(V(p.x, p.y, 0), V(q.x, q.y, 0));
	p = Vec2<Real>::fromClerpMaxAngle(a * k, b * k, m); q = Vec2<Real>::fromClerpMaxAngle(a, b, m);
	like(V(p.x, p.y, 0), V(q.x, q.y, 0));
}
