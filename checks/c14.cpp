// C14: conversions between representations of rotations
#include "quats.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C14";
const char* pbt::RULE = "rotations by every axis and angle over several turns, with half-turns, near-half-turns, near-zero rotations and exact permutations, built as quaternion, matrix and axis-angle; "
	"pairs of directions of any lengths, parallel, nearly parallel, opposite and nearly opposite ones; non-trivial: the rotation turns by more than 0.05 rad";

// quaternion of a rotation, biased towards the branches and edges of the conversions
template <class R> static Quat<R> rotation(Case& c)
{
	switch (c.draw(4))
	{
	case 0: return unitQuat<R>(c);
	case 1: // near half a turn: small w of either sign
	{
		Vec3<R> a = unit3<R>(c);
		LD w = c.oneIn(3) ? 0 : LD(mag<R>(c, -24, -1)) * (c.flip() ? 1 : -1);
		LQ q = unit(LQ(a.x, a.y, a.z, w));
		Quat<R> r; r.x = R(q.x); r.y = R(q.y); r.z = R(q.z); r.w = R(q.w);
		return r;
	}
	case 2: // small
	{
		Vec3<R> a = unit3<R>(c);
		LD m = LD(mag<R>(c, -18, -2));
		LQ q = unit(LQ(a.x * m, a.y * m, a.z * m, c.flip() ? 1 : -1));
		Quat<R> r; r.x = R(q.x); r.y = R(q.y); r.z = R(q.z); r.w = R(q.w);
		return r;
	}
	default: // trace near zero (a third of a turn), where the matrix conversion changes branch
	{
		Vec3<R> a = c.flip() ? unit3<R>(c) : Vec3<R>(R(c.flip() ? 1 : -1), R(c.flip() ? 1 : -1), R(c.flip() ? 1 : -1));
		LD m = LD(mag<R>(c, -24, -2)) * (c.flip() ? 1 : -1), l = len(a.x, a.y, a.z);
		LD h = PIL / 3 + m;
		LQ q(a.x / l * sinl(h), a.y / l * sinl(h), a.z / l * sinl(h), cosl(h));
		Quat<R> r; r.x = R(q.x); r.y = R(q.y); r.z = R(q.z); r.w = R(q.w);
		return r;
	}
	}
}

template <class R> static LD turnOf(const Quat<R>& q) { LQ l(q); return 2 * atan2l(vlen(l), fabsl(l.w)); }

LAW(axisAngleToQuat, 2)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Vec3<Real> axis = c.flip() ? unit3<Real>(c) : nonzero3<Real>(c, -8, 8);
	Real g = c.oneIn(6) ? Real(LD(c.range(-3, 3)) * PIL + LD(mag<Real>(c, -20, -2)) * (c.flip() ? 1 : -1)) : angle<Real>(c);
	SHOWV(axis); SHOW(g);
	LQ ref = axisAngle(axis.x, axis.y, axis.z, g);
	c.nontrivial(2 * atan2l(vlen(ref), fabsl(ref.w)) > 0.05L);
	Q q = Q::from(axis, g);
	LD tol = 16 * u;
	WITHINQ(q, ref, tol);
	{ Q t; REQUIRE(&t.set(axis, g) == &t); SAMEQ(t, q); }
	// same rotation as the matrix of that axis and angle
	Mat3<Real> m = Mat3<Real>::from(axis, g);
	NEARMK(m, (nrot(axis, g)), 16);
	WITHINR(Q::from(m), ref, 64 * u);
	{ Q t; REQUIRE(&t.set(m) == &t); SAMEQ(t, Q::from(m)); }
	{
		Mat4<Real> m4 = Mat4<Real>::from(axis, g);
		m4.t = Vec4<Real>(real<Real>(c), real<Real>(c), real<Real>(c), 1);
		WITHINR(Q::from(m4), ref, 64 * u);
		Q t; REQUIRE(&t.set(m4) == &t); SAMEQ(t, Q::from(m4));
	}
	// a null axis turns nothing
	SAMEQ(Q::from(Vec3<Real>(0, 0, 0), g), Q::One);
	// opposite axis and angle, and full turns, change nothing
	WITHINQ(Q::from(-axis, -g), ref, tol);
}

LAW(matrixToQuat, 2)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Q q = rotation<Real>(c);
	SHOWV(q);
	c.nontrivial(turnOf(q) > 0.05L);
	Mat3<Real> m = Mat3<Real>::from(q);
	{ Mat3<Real> t; REQUIRE(&t.set(q) == &t); SAMEM(t, m); }
	NMat<3, Real> e = nrot(q);
	for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) REQUIREM(fabsl(exact(m).e[j][i].v - e.e[j][i].v) <= 16 * u, s(m));
	Q b = Q::from(m);
	c.label(exact(m).e[0][0].v + exact(m).e[1][1].v + exact(m).e[2][2].v > 0 ? "positive trace" : "other branches");
	WITHINR(b, LQ(q), 48 * u);
	REQUIRE(fabsl(norm(LQ(b)) - 1) <= 32 * u);
	// the 4x4 forms carry the same rotation, whatever the offset
	Mat4<Real> m4 = Mat4<Real>::from(q);
	NMat<4, Real> e4 = exact(m4);
	for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) REQUIREM(fabsl(e4.e[j][i].v - (i < 3 && j < 3 ? e.e[j][i].v : LD(i == j))) <= 16 * u, s(m4));
	m4.t = Vec4<Real>(real<Real>(c), real<Real>(c), real<Real>(c), 1);
	WITHINR(Q::from(m4), LQ(q), 48 * u);
	Mat34<Real> m34 = Mat34<Real>::from(q, Vec3<Real>(1, 2, 3));
	WITHINR(Q::from(m34.rs), LQ(q), 48 * u);
	// exact permutation matrices and half-turns
	if (c.oneIn(8))
	{
		c.label("signed permutation");
		static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
		int p = int(c.draw(6)), sg[3];
		for (int i = 0; i < 3; i++) sg[i] = c.flip() ? -1 : 1;
		if ((p < 3 ? 1 : -1) * sg[0] * sg[1] * sg[2] < 0) sg[2] = -sg[2];
		Vec3<Real> col[3];
		for (int j = 0; j < 3; j++) { col[j] = Vec3<Real>(0, 0, 0); col[j].data()[perm[p][j]] = Real(sg[j]); }
		Mat3<Real> k(col[0], col[1], col[2]);
		c.show("matrix", s(k));
		Q kq = Q::from(k);
		for (int j = 0; j < 3; j++)
		{
			LV r = rotateBy(LQ(kq), LV{LD(j == 0), LD(j == 1), LD(j == 2)});
			REQUIREM(len(r.x - col[j].x, r.y - col[j].y, r.z - col[j].z) <= 32 * u, s(kq));
		}
	}
}

LAW(quatToAxisAngle, 2)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	Q q = rotation<Real>(c);
	SHOWV(q);
	c.nontrivial(turnOf(q) > 0.05L);
	Vec3<Real> axis(9, 9, 9);
	Real g = 99;
	q.toAxisAngle(axis, g);
	c.show("axis", s(axis)); c.show("angle", g);
	CLOSE(Real(len(axis.x, axis.y, axis.z)), 1, 16 * u);
	REQUIRE(g >= 0); REQUIRE(g <= 2 * PIL * (1 + 2 * u));
	LD v = vlen(LQ(q));
	if (v * v < 1.001e-6L)
	{
		// rotations of less than a thousandth of a turn may be dropped
		c.label("dropped");
		WITHINR(Q::from(axis, g), LQ(q), 0.00101L);
	}
	else
	{
		LD tol = 16 * u + 8 * u / v;
		WITHINQ(Q::from(axis, g), LQ(q), tol);
		// the axis is the direction of the vector part
		REQUIREM(len(axis.x - q.x / v, axis.y - q.y / v, axis.z - q.z / v) <= 32 * u, s(axis));
		REQUIREM(fabsl(g - 2 * atan2l(v, LD(q.w))) <= 2 * tol, g);
	}
	// products of unit quaternions are unit only up to rounding: extraction still works
	{
		Q r = unitQuat<Real>(c), p = q * r * r.inverse();
		p.toAxisAngle(axis, g);
		WITHINR(Q::from(axis, g), LQ(p), 0.00101L + 16 * u);
		REQUIRE(g == g);
	}
}

LAW(twoDirections, 2)
{
	typedef Quat<Real> Q;
	typedef Vec3<Real> V;
	LD u = Num<Real>::u();
	V a = nonzero3<Real>(c, -6, 6), b;
	LD la = len(a.x, a.y, a.z);
	switch (c.draw(5))
	{
	case 0: { Real k = nonzero<Real>(c, -4, 4); b = V(a.x * k, a.y * k, a.z * k); break; }
	case 1: case 2: // close to parallel or opposite
	{
		V d = unit3<Real>(c);
		LD m = LD(mag<Real>(c, -20, -2)) * la;
		Real k = c.flip() ? Real(1) : Real(-1);
		b = V(Real(k * a.x + d.x * m), Real(k * a.y + d.y * m), Real(k * a.z + d.z * m));
		break;
	}
	default: b = nonzero3<Real>(c, -6, 6);
	}
	LD lb = len(b.x, b.y, b.z);
	if (!(lb > 1e-6L)) { b = V(0, 0, 1); lb = 1; }
	SHOWV(a); SHOWV(b);
	LD cx = (LD(a.y) * b.z - LD(a.z) * b.y) / (la * lb), cy = (LD(a.z) * b.x - LD(a.x) * b.z) / (la * lb), cz = (LD(a.x) * b.y - LD(a.y) * b.x) / (la * lb);
	LD cs = (LD(a.x) * b.x + LD(a.y) * b.y + LD(a.z) * b.z) / (la * lb), sn = len(cx, cy, cz);
	LD t = atan2l(sn, cs);
	c.nontrivial(t > 0.05L);
	Q q = Q::from(a, b);
	{ Q k; REQUIRE(&k.set(a, b) == &k); SAMEQ(k, q); }
	CLOSE(Real(norm(LQ(q))), 1, 32 * u);
	// carries the first direction onto the second
	LV r = rotateBy(LQ(q), LV{a.x / la, a.y / la, a.z / la});
	LD off = len(r.x - b.x / lb, r.y - b.y / lb, r.z - b.z / lb);
	const LD near0 = acosl(0.99999L) * 1.01L;
	LD tol = 32 * u + 8 * u / (sn > u ? sn : u);
	if (t <= near0 || t >= PIL - near0) { c.label(t < 1 ? "nearly parallel" : "nearly opposite"); tol = near0; }
	REQUIREM(off <= tol, "carried to " + pbt::str(off) + " from the target, allowed " + pbt::str(tol) + ", " + s(q));
	// by no more than the angle between them, with no twist
	LD turn = turnOf(q);
	REQUIREM(turn <= t + tol * 2, "turns by " + pbt::str(turn) + ", the directions are " + pbt::str(t) + " apart");
	REQUIREM(fabsl(q.x * LD(a.x) + q.y * LD(a.y) + q.z * LD(a.z)) <= tol * la, "the axis is not perpendicular to the first direction: " + s(q));
	if (t > near0 && t < PIL - near0)
		WITHINR(q, (LQ(cx / sn * sinl(t / 2), cy / sn * sinl(t / 2), cz / sn * sinl(t / 2), cosl(t / 2))), tol * 2);
	// agrees with the matrix between the same quaternions
	V w = Mat3<Real>::from(q) * a;
	REQUIREM(len(w.x / la - r.x, w.y / la - r.y, w.z / la - r.z) <= 32 * u + 1.5e-5L * (turn < 3e-5L), s(w));
}
