// C07: constructors of 3x3 matrices
#include "mats.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C07";
const char* pbt::RULE = "axes (unit, unnormalised, coordinate), angles of any size, unit quaternions, scalars and columns, and pairs of directions for every ordered pair of distinct axes; "
	"non-trivial: the rotation is not by a multiple of a full turn, or the two directions are neither parallel nor perpendicular";

template <class R> static void isRotation(Case& c, const Mat3<R>& m)
{
	LD u = 64 * Num<R>::u();
	NMat<3, R> A = exact(m);
	REQUIREM(orthoDev(A, 3) <= u, "columns are not orthonormal: " + gen::s(m));
	REQUIREM(orthoDev(transposeOf(A), 3) <= u, "rows are not orthonormal: " + gen::s(m));
	REQUIREM(fabsl(det(A).v - 1) <= u, "determinant is not one: " + gen::s(m));
	REQUIRE(m.isOrthonormal() && m.isNormal() && m.isOrthogonal() && m.isInitialized());
}

LAW(rotation, 2)
{
	typedef Mat3<Real> M;
	typedef Vec3<Real> V;
	V axis = c.flip() ? unit3<Real>(c) : nonzero3<Real>(c);
	Real g = angle<Real>(c);
	V v = vec3<Real>(c, -4, 4);
	SHOWV(axis); SHOW(g); SHOWV(v);
	LD gg = fabsl(remainderl(LD(g), 2 * PIL));
	c.nontrivial(gg > 0.05L);
	M m = M::from(axis, g);
	NEARM(m, nrot(axis, g));
	isRotation(c, m);
	{ M n; REQUIRE(&n.set(axis, g) == &n); SAMEM(n, m); }

	// keeps its axis
	LD u = 64 * Num<Real>::u(), l = len(axis.x, axis.y, axis.z);
	V fa = m * axis;
	REQUIRE(len(fa.x - axis.x, fa.y - axis.y, fa.z - axis.z) <= u * l);
	// turns perpendicular vectors by the angle, counter-clockwise seen from the tip of the axis
	LD d = (LD(axis.x) * v.x + LD(axis.y) * v.y + LD(axis.z) * v.z) / (l * l);
	LD px = v.x - d * axis.x, py = v.y - d * axis.y, pz = v.z - d * axis.z;
	LD qx = (axis.y * pz - axis.z * py) / l, qy = (axis.z * px - axis.x * pz) / l, qz = (axis.x * py - axis.y * px) / l;
	V w = m * v;
	LD cs = cosl(g), sn = sinl(g), lv = 1 + len(v.x, v.y, v.z);
	REQUIRE(fabsl(w.x - (d * axis.x + px * cs + qx * sn)) <= u * lv);
	REQUIRE(fabsl(w.y - (d * axis.y + py * cs + qy * sn)) <= u * lv);
	REQUIRE(fabsl(w.z - (d * axis.z + pz * cs + qz * sn)) <= u * lv);
	// turning the other way undoes it
	V z = M::from(axis, -g) * w;
	REQUIRE(len(z.x - v.x, z.y - v.y, z.z - v.z) <= u * lv);

	// rotation matrices already orthonormal stay put when orthonormalised
	M o = m;
	REQUIRE(&o.orthonormalise() == &o);
	isRotation(c, o);
	NMat<3, Real> E = exact(m), O = exact(o);
	for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++)
		REQUIREM(fabsl(O.e[j][i].v - E.e[j][i].v) <= 16 * u, "orthonormalise moved a rotation: " + gen::s(o) + " from " + gen::s(m));
	// and drifted ones come back to it
	{
		Real eps = between<Real>(c, Real(-0.01), Real(0.01));
		M k = M(m.x * (1 + eps), m.y * (1 + eps), m.z * (1 + eps));
		k.orthonormalise();
		isRotation(c, k);
		NMat<3, Real> K = exact(k);
		for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++)
			REQUIREM(fabsl(K.e[j][i].v - E.e[j][i].v) <= 16 * u + 4 * fabsl(LD(eps)), "orthonormalise of a scaled rotation: " + gen::s(k));
	}
}

LAW(coordRotation, 1)
{
	typedef Mat3<Real> M;
	Coord a = coord3<Real>(c);
	Real g = angle<Real>(c);
	c.show("axis", int(a)); SHOW(g);
	c.nontrivial(fabsl(remainderl(LD(g), 2 * PIL)) > 0.05L);
	M m = M::from(a, g);
	NEARM(m, nrot(a, g));
	isRotation(c, m);
	{ M n; REQUIRE(&n.set(a, g) == &n); SAMEM(n, m); }
	Vec3<Real> v(Real(a == Coord::X), Real(a == Coord::Y), Real(a == Coord::Z));
	NEARM(M::from(v, g), nrot(v, g));
}

LAW(quaternion, 1)
{
	typedef Mat3<Real> M;
	Quat<Real> q = unitQuat<Real>(c), p = unitQuat<Real>(c);
	Real w = unit01<Real>(c), lim = c.oneIn(4) ? Real(4) : between<Real>(c, Real(0), Real(3.2));
	c.show("q", gen::s(Vec4<Real>(q.x, q.y, q.z, q.w))); c.show("p", gen::s(Vec4<Real>(p.x, p.y, p.z, p.w))); SHOW(w); SHOW(lim);
	c.nontrivial(fabs(q.w) < Real(0.99) && fabs(p.w) < Real(0.99));
	M m = M::from(q);
	NEARM(m, nrot(q));
	isRotation(c, m);
	{ M n; REQUIRE(&n.set(q) == &n); SAMEM(n, m); }
	// q and -q denote the same rotation
	{ Quat<Real> k; k.x = -q.x; k.y = -q.y; k.z = -q.z; k.w = -q.w; SAMEM(M::from(k), m); }

	// interpolation goes by the angle between the two rotations
	M n = M::from(p);
	LD dot = fabsl(LD(q.x) * p.x + LD(q.y) * p.y + LD(q.z) * p.z + LD(q.w) * p.w);
	LD turn = 2 * acosl(dot < 1 ? dot : 1);
	if (turn > PIL - 0.05L) { c.label("half turn apart"); return; }
	M r = M::fromSlerp(m, n, w);
	isRotation(c, r);
	{ M x; REQUIRE(&x.slerp(m, n, w) == &x); SAMEM(x, r); }
	auto angleOf = [](const M& a, const M& b) -> LD {
		NMat<3, Real> A = exact(a), B = exact(b);
		LD s = 0;
		for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) { LD d = A.e[j][i].v - B.e[j][i].v; s += d * d; }
		s = sqrtl(s / 8);
		return 2 * asinl(s < 1 ? s : 1);
	};
	// the library blends linearly when the rotations are close: allow for that
	LD tol = 3e-3L;
	REQUIREM(fabsl(angleOf(m, r) - turn * w) <= tol, "slerp turned by " + pbt::str(angleOf(m, r)) + " of " + pbt::str(turn));
	REQUIREM(fabsl(angleOf(n, r) - turn * (1 - LD(w))) <= tol, "slerp is " + pbt::str(angleOf(n, r)) + " from its end, of " + pbt::str(turn));
	LD ends = (sizeof(Real) == 4 ? 2e-3L : 1e-7L);
	if (w == 0) REQUIRE(angleOf(m, r) <= ends);
	if (w == 1) REQUIRE(angleOf(n, r) <= ends);
	M t = M::fromSlerpMaxAngle(m, n, lim);
	isRotation(c, t);
	{ M x; REQUIRE(&x.slerpMaxAngle(m, n, lim) == &x); SAMEM(x, t); }
	LD part = turn < lim ? turn : LD(lim);
	REQUIREM(fabsl(angleOf(m, t) - part) <= tol, "slerpMaxAngle turned by " + pbt::str(angleOf(m, t)) + " instead of " + pbt::str(part));
	REQUIREM(fabsl(angleOf(n, t) - (turn - part)) <= tol, "slerpMaxAngle is " + pbt::str(angleOf(n, t)) + " from its end");
}

LAW(frame, 2)
{
	typedef Mat3<Real> M;
	typedef Vec3<Real> V;
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	int e = int(c.draw(3)), a = (e + 1 + int(c.draw(2))) % 3, o = 3 - e - a;
	V u = nonzero3<Real>(c), v = nonzero3<Real>(c);
	if (c.oneIn(16)) { u = V(0, 0, 0); c.label("no exact direction"); }
	else if (c.oneIn(12))
	{
		// exactly parallel, in exact arithmetic
		int k = int(c.draw(3));
		u = V(Real(k == 0), Real(k == 1), Real(k == 2)) * Real(int(c.draw(4)) + 1);
		v = u * Real(c.range(-3, 3));
		c.label("parallel");
		M m = M::from(cs[e], u, cs[a], v);
		SAMEM(m, M(Real(1)));
		REQUIRE(m.isIdentity());
		return;
	}
	c.show("exact axis", e); c.show("approximate axis", a); SHOWV(u); SHOWV(v);
	M m = M::from(cs[e], u, cs[a], v);
	{ M n; REQUIRE(&n.set(cs[e], u, cs[a], v) == &n); SAMEM(n, m); }
	if (u.x == 0 && u.y == 0 && u.z == 0) { SAMEM(m, M(Real(1))); REQUIRE(m.isIdentity()); return; }
	LD lu = len(u.x, u.y, u.z), lv = len(v.x, v.y, v.z);
	LD U[3] = {u.x / lu, u.y / lu, u.z / lu}, W[3] = {v.x / lv, v.y / lv, v.z / lv};
	LD d = U[0] * W[0] + U[1] * W[1] + U[2] * W[2];
	LD p[3], lp = 0;
	for (int i = 0; i < 3; i++) p[i] = W[i] - d * U[i];
	lp = len(p[0], p[1], p[2]);
	if (lp < 1e-2L) { c.label("nearly parallel"); return; }
	c.nontrivial(fabsl(d) > 0.01L);
	for (int i = 0; i < 3; i++) p[i] /= lp;
	isRotation(c, m);
	NMat<3, Real> A = exact(m);
	LD t = 32 * Num<Real>::u(), tp = t / lp;
	for (int i = 0; i < 3; i++)
	{
		REQUIREM(fabsl(A.e[e][i].v - U[i]) <= t, "the exact axis is " + gen::s(m));
		REQUIREM(fabsl(A.e[a][i].v - p[i]) <= tp, "the approximate axis is " + gen::s(m));
	}
	// right-handed completion
	int s = (a == (e + 1) % 3) ? 1 : -1;
	for (int i = 0; i < 3; i++)
	{
		LD x = U[(i + 1) % 3] * p[(i + 2) % 3] - U[(i + 2) % 3] * p[(i + 1) % 3];
		REQUIREM(fabsl(A.e[o][i].v - s * x) <= 2 * tp, "the completing axis is " + gen::s(m));
	}
}

LAW(elements, 1)
{
	typedef Mat3<Real> M;
	typedef Vec3<Real> V;
	Real k = real<Real>(c);
	V x = vec3<Real>(c), y = vec3<Real>(c), z = vec3<Real>(c);
	SHOW(k); SHOWV(x); SHOWV(y); SHOWV(z);
	c.nontrivial(k != 0 && maxAbs(exact(M(x, y, z))) > 0);
	{ M m(k); NMat<3, Real> A = exact(m); for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) REQUIRE(A.e[j][i].v == (i == j ? LD(k) : 0)); }
	M m(x, y, z);
	SAME3(m.x, x); SAME3(m.y, y); SAME3(m.z, z);
	SAMEM(M::from(x, y, z), m);
	{ M n; REQUIRE(&n.set(x, y, z) == &n); SAMEM(n, m); }
	{ M n; REQUIRE(&n.setIdentity() == &n); SAMEM(n, M(Real(1))); SAMEM(M::One, n); SAMEM(M::Zero, M(Real(0))); REQUIRE(n.isIdentity() && n.isOrthonormal()); }
	REQUIRE(!M().isInitialized());
	// the columns are the images of the coordinate directions
	SAME3(m * V(1, 0, 0), x); SAME3(m * V(0, 1, 0), y); SAME3(m * V(0, 0, 1), z);
}
