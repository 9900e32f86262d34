// C15: interpolation of quaternions
#include "quats.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C15";
const char* pbt::RULE = "pairs of unit quaternions (equal, opposite, at chosen small and large angles, random, both signs), ratios in [0,1] with both ends, angle limits from zero to beyond the arc, "
	"aliased destinations; non-trivial: the arc is longer than 0.05 rad and the ratio is strictly inside";

// close pairs are blended linearly; the angle is then off by at most this much (arc whose cosine is 0.95)
static const LD BLEND = 7e-4L;

LAW(slerp, 2)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Q a, b;
	quatPair(c, a, b);
	Real w = unit01<Real>(c);
	SHOWV(a); SHOWV(b); SHOW(w);
	LD d = dot(LQ(a), LQ(b));
	LQ bs = d < 0 ? -LQ(b) : LQ(b);
	LD t = arc(LQ(a), bs);
	c.nontrivial(t > 0.025L && w > Real(0.01) && w < Real(0.99));
	Q r = Q::fromSlerp(a, b, w);
	const Q a0 = a, b0 = b;
	{ Q k; REQUIRE(&k.slerp(a, b, w) == &k); SAMEQ(k, r); }
	SAMEQ(a, a0); SAMEQ(b, b0);
	CLOSE(Real(norm(LQ(r))), 1, 64 * u);
	// the destination may be either operand
	{ Q k = a; k.slerp(k, b, w); SAMEQ(k, r); }
	{ Q k = b; k.slerp(a, k, w); SAMEQ(k, r); }
	// ends
	WITHINR(Q::fromSlerp(a, b, Real(0)), LQ(a), 32 * u);
	WITHINR(Q::fromSlerp(a, b, Real(1)), LQ(b), 32 * u);
	bool tie = fabsl(d) < 1e-5L;
	if (tie) { c.label("half a turn apart"); }
	else
	{
		LQ ref = slerpRef(LQ(a), bs, w);
		LD ad = fabsl(d);
		// the blend applies to close pairs only; its error vanishes with the arc
		LD blend = ad > 0.9499L ? 0.065L * t * t * t : 0;
		if (blend > BLEND) blend = BLEND;
		WITHINR(r, ref, 64 * u + blend);
		// signs of the operands do not matter
		WITHINR(Q::fromSlerp(-a, b, w), LQ(r), 64 * u);
		WITHINR(Q::fromSlerp(a, -b, w), LQ(r), 64 * u);
		WITHINR(Q::fromSlerp(-a, -b, w), LQ(r), 64 * u);
		// the same way back
		WITHINR(Q::fromSlerp(b, a, Real(1) - w), LQ(r), 128 * u);
	}
	// never farther from either end than the ends are from each other
	LD fromA = arc(LQ(a), dot(LQ(a), LQ(r)) < 0 ? -LQ(r) : LQ(r)), fromB = arc(LQ(b), dot(LQ(b), LQ(r)) < 0 ? -LQ(r) : LQ(r));
	REQUIREM(fabsl(fromA + fromB - t) <= 64 * sqrtl(u) * (t < 0.01L ? 1 : 0) + 128 * u, "not on the shortest arc: " + pbt::str(fromA) + " + " + pbt::str(fromB) + " against " + pbt::str(t));
}

LAW(lerp, 1)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Q a, b;
	quatPair(c, a, b);
	Real w = unit01<Real>(c);
	SHOWV(a); SHOWV(b); SHOW(w);
	LQ m = addQ(mulK(LQ(a), 1 - LD(w)), mulK(LQ(b), w));
	LD n = norm(m);
	c.nontrivial(arc(LQ(a), LQ(b)) > 0.025L && w > Real(0.01) && w < Real(0.99));
	Q r = Q::fromLerp(a, b, w);
	{ Q k; REQUIRE(&k.lerp(a, b, w) == &k); SAMEQ(k, r); }
	{ Q k = a; k.lerp(k, b, w); SAMEQ(k, r); }
	{ Q k = b; k.lerp(a, k, w); SAMEQ(k, r); }
	CLOSE(Real(norm(LQ(r))), 1, 16 * u);
	WITHINQ(Q::fromLerp(a, b, Real(0)), LQ(a), 16 * u);
	WITHINQ(Q::fromLerp(a, b, Real(1)), LQ(b), 16 * u);
	if (n < 0.001L) { c.label("opposite"); return; }
	WITHINQ(r, unit(m), 16 * u / n);
}

LAW(slerpNoInvert, 1)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Q a, b;
	quatPair(c, a, b);
	Real w = unit01<Real>(c);
	SHOWV(a); SHOWV(b); SHOW(w);
	LD d = dot(LQ(a), LQ(b)), t = arc(LQ(a), LQ(b));
	c.nontrivial(t > 0.025L && w > Real(0.01) && w < Real(0.99));
	if (d < -0.999L) { c.label("opposite"); return; }      // every arc is shortest
	Q r = Q::fromSlerpNoInvert(a, b, w);
	{ Q k; REQUIRE(&k.slerpNoInvert(a, b, w) == &k); SAMEQ(k, r); }
	{ Q k = a; k.slerpNoInvert(k, b, w); SAMEQ(k, r); }
	{ Q k = b; k.slerpNoInvert(a, k, w); SAMEQ(k, r); }
	LD sn = sinl(t), cond = d < 0.96L ? 1 / (sn * sn) : 1;
	LD blend = d > 0.9499L ? 0.065L * t * t * t : 0;
	WITHINQ(r, slerpRef(LQ(a), LQ(b), w), 64 * u * (1 + cond) + blend);
	WITHINQ(Q::fromSlerpNoInvert(a, b, Real(0)), LQ(a), 32 * u * (1 + cond));
	WITHINQ(Q::fromSlerpNoInvert(a, b, Real(1)), LQ(b), 32 * u * (1 + cond));
}

LAW(slerpMaxAngle, 2)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Q a, b;
	quatPair(c, a, b);
	LQ rel = conj(LQ(a)) * LQ(b);
	if (rel.w < 0) rel = -rel;
	LD v = vlen(rel), turn = 2 * atan2l(v, rel.w);
	Real lim;
	switch (c.draw(4))
	{
	case 0: { static const double k[] = {0, 1, 4, 10, 0.5, 0.001}; lim = Real(k[c.draw(6)]); break; }
	case 1: lim = Real(turn * LD(unit01<Real>(c))); break;
	case 2: lim = Real(turn + LD(mag<Real>(c, -20, 0)) * (c.flip() ? 1 : -1)); if (lim < 0) lim = 0; break;
	default: lim = between<Real>(c, Real(0), Real(3.2));
	}
	SHOWV(a); SHOWV(b); SHOW(lim);
	c.nontrivial(turn > 0.05L && lim > Real(0.01) && lim < turn);
	Q r = Q::fromSlerpMaxAngle(a, b, lim);
	{ Q k; REQUIRE(&k.slerpMaxAngle(a, b, lim) == &k); SAMEQ(k, r); }
	{ Q k = a; k.slerpMaxAngle(k, b, lim); SAMEQ(k, r); }
	{ Q k = b; k.slerpMaxAngle(a, k, lim); SAMEQ(k, r); }
	CLOSE(Real(norm(LQ(r))), 1, 64 * u);
	// the extraction of the angle drops rotations below two milliradians
	LD tol = 64 * u + (v * v < 1.01e-6L ? 0.0011L : 8 * u / v);
	LD part = turn < LD(lim) ? turn : LD(lim);
	LQ fr = conj(LQ(a)) * LQ(r);
	LD turned = 2 * atan2l(vlen(fr), fabsl(fr.w));
	REQUIREM(turned <= lim + 2 * tol, "turned by " + pbt::str(turned));
	REQUIREM(fabsl(turned - part) <= 2 * tol, "turned by " + pbt::str(turned) + " instead of " + pbt::str(part));
	if (rel.w < 1e-5L) { c.label("half a turn apart"); return; }
	if (v > 0) WITHINR(r, LQ(a) * axisAngle(rel.x, rel.y, rel.z, part), tol + 64 * u);
	if (lim >= turn) WITHINR(r, LQ(b), tol + 64 * u);
	if (lim == 0) WITHINR(r, LQ(a), 64 * u);
}

LAW(squad, 1)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Q p = unitQuat<Real>(c), q = unitQuat<Real>(c), a = unitQuat<Real>(c), b = unitQuat<Real>(c);
	Real w = unit01<Real>(c);
	SHOWV(p); SHOWV(q); SHOWV(a); SHOWV(b); SHOW(w);
	c.nontrivial(w > Real(0.01) && w < Real(0.99));
	if (dot(LQ(p), LQ(q)) > -0.95L && dot(LQ(a), LQ(b)) > -0.95L)
	{
		LD h = 2 * LD(w) * (1 - LD(w));
		LQ m = slerpRef(LQ(p), LQ(q), w), n = slerpRef(LQ(a), LQ(b), w);
		LD d = dot(m, n);
		if (d > -0.95L)
		{
			Q r = Q::from(p, q, a, b, w);
			{ Q k; REQUIRE(&k.set(p, q, a, b, w) == &k); SAMEQ(k, r); }
			{ Q k = p; k.set(k, q, a, b, w); SAMEQ(k, r); }
			{ Q k = b; k.set(p, q, a, k, w); SAMEQ(k, r); }
			// three blends, each at most BLEND off; the last one can magnify the others near opposite operands
			bool exactArcs = dot(LQ(p), LQ(q)) < 0.9499L && dot(LQ(a), LQ(b)) < 0.9499L && d < 0.9499L;
			WITHINQ(r, slerpRef(m, n, h), 4096 * u + (exactArcs ? 0 : 8 * BLEND));
			WITHINQ(Q::from(p, q, a, b, Real(0)), LQ(p), 1024 * u);
			WITHINQ(Q::from(p, q, a, b, Real(1)), LQ(q), 1024 * u);
			CLOSE(Real(norm(LQ(r))), 1, 2048 * u);
		}
	}
	// control point of three consecutive orientations
	{
		LQ f = conj(LQ(p)) * LQ(a), t = conj(LQ(p)) * LQ(q);
		LD vf = vlen(f), vt = vlen(t);
		if (vf > 0.05L && vt > 0.05L)
		{
			LD af = atan2l(vf, f.w) / vf, at = atan2l(vt, t.w) / vt;
			LQ x((f.x * af + t.x * at) * -0.25L, (f.y * af + t.y * at) * -0.25L, (f.z * af + t.z * at) * -0.25L, 0);
			LD xl = vlen(x);
			LQ e = xl > 0 ? LQ(x.x / xl * sinl(xl), x.y / xl * sinl(xl), x.z / xl * sinl(xl), cosl(xl)) : LQ();
			Q r = Q::from(a, p, q);
			{ Q k; REQUIRE(&k.set(a, p, q) == &k); SAMEQ(k, r); }
			{ Q k = a; k.set(k, p, q); SAMEQ(k, r); }
			{ Q k = p; k.set(a, k, q); SAMEQ(k, r); }
			WITHINQ(r, LQ(p) * e, 64 * u * (1 + 4 / (vf * vf) + 4 / (vt * vt)));
		}
		// turning steadily, the control point is the orientation itself
		Vec3<Real> ax = unit3<Real>(c);
		Real g = between<Real>(c, Real(0.1), Real(1.5));
		Q step = Q::from(ax, g);
		Q r = Q::from(p * step.inverse(), p, p * step);
		WITHINQ(r, LQ(p), 4096 * u);
	}
}
