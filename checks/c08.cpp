// C08: incremental rotation, scale, translation and composition
#include "mats.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C08";
const char* pbt::RULE = "sequences of up to six incremental operations (every overload: coordinate, axis, quaternion and matrix rotations, scales, translations, compositions, before and after, "
	"in place and copying) on 2x2, 3x3, 3x4 and 4x4 transforms of any origin, each step and a later use of the result compared with composition; "
	"non-trivial: the start is not the identity and some step is not the identity map";

template <class R> static R turn(Case& c)
{
	// small turns must not get lost
	if (c.oneIn(5)) { R m = mag<R>(c, -14, -4); return c.flip() ? -m : m; }
	return angle<R>(c);
}
template <class R> static Vec3<R> offset(Case& c)
{
	if (c.oneIn(6)) { R m = mag<R>(c, -14, -4); Vec3<R> v(R(0), R(0), R(0)); (c.flip() ? v.x : c.flip() ? v.y : v.z) = m; return v; }
	return vec3<R>(c, -6, 6);
}

LAW(mat2, 1)
{
	typedef Mat2<Real> M;
	M m = anyMat2<Real>(c);
	SHOWV(m);
	bool moved = false;
	c.nontrivial(false);
	int n = 1 + int(c.draw(6));
	bool startId = m.isIdentity();
	for (int i = 0; i < n; i++)
	{
		NMat<2, Real> A = exact(m);
		Real g = turn<Real>(c);
		Vec2<Real> k(nonzero<Real>(c, -2, 2), nonzero<Real>(c, -2, 2));
		Num<Real> s = nsin(Num<Real>(g)), q = ncos(Num<Real>(g));
		NMat<2, Real> Rg, K;
		Rg.e[0][0] = q; Rg.e[0][1] = s; Rg.e[1][0] = -s; Rg.e[1][1] = q;
		K.e[0][0] = k.x; K.e[1][1] = k.y;
		M r;
		switch (c.draw(5))
		{
		case 0: c.show("rotate", g); REQUIRE(&m.rotate(g) == &m); NEARM(m, mul(Rg, A)); break;
		case 1: c.show("rotatePre", g); REQUIRE(&m.rotatePre(g) == &m); NEARM(m, mul(A, Rg)); break;
		case 2: c.show("rotated", g); r = m.rotated(g); NEARM(r, mul(Rg, A)); SAMEM(r, M(r.x, r.y)); m = r; break;
		case 3: c.show("scale", gen::s(k)); REQUIRE(&m.scale(k) == &m); NEARM(m, mul(A, K)); break;
		default: c.show("scaled", gen::s(k)); r = m.scaled(k); NEARM(r, mul(A, K)); m = r; break;
		}
		moved = true;
		if (!sane(m)) break;
	}
	c.nontrivial(moved && !startId);
	// later use
	M b = anyMat2<Real>(c, 1);
	Vec2<Real> v = vec2<Real>(c, -4, 4);
	NEARM(m * b, mul(ref(m), ref(b)));
	NEARM(b * m, mul(ref(b), ref(m)));
	NEAR2(m * v, v2of(mul(exact(m), nv(v))));
}

LAW(mat3, 2)
{
	typedef Mat3<Real> M;
	M m = anyMat3<Real>(c, 1);
	SHOWV(m);
	bool startId = m.isIdentity();
	int n = 1 + int(c.draw(6));
	for (int i = 0; i < n; i++)
	{
		NMat<3, Real> A = exact(m), B = ref(m);
		Coord a = coord3<Real>(c);
		Vec3<Real> u = c.flip() ? unit3<Real>(c) : nonzero3<Real>(c);
		Real g = turn<Real>(c);
		Quat<Real> q = c.flip() ? unitQuat<Real>(c) : Quat<Real>::from(u, g);
		Vec3<Real> k = factors3<Real>(c);
		M o = anyMat3<Real>(c, 1), r;
		NMat<3, Real> Ra = nrot(a, g), Ru = maybeIdentity(nrot(u, g)), Rq = maybeIdentity(nrot(q)), O = ref(o), K = ndiag<3, Real>(k);
		int op = int(c.draw(18));
		c.show("op", op); c.show("axis", gen::s(u)); c.show("coordinate", int(a)); c.show("angle", g); c.show("factors", gen::s(k)); c.show("other", gen::s(o));
		c.show("q", gen::s(Vec4<Real>(q.x, q.y, q.z, q.w)));
		switch (op)
		{
		case 0: REQUIRE(&m.rotate(a, g) == &m); NEARM(m, mul(Ra, A)); break;
		case 1: REQUIRE(&m.rotatePre(a, g) == &m); NEARM(m, mul(A, Ra)); break;
		case 2: r = m.rotated(a, g); NEARM(r, mul(Ra, A)); break;
		case 3: r = m.rotatedPre(a, g); NEARM(r, mul(A, Ra)); break;
		case 4: REQUIRE(&m.rotate(u, g) == &m); NEARM(m, mul(Ru, B)); break;
		case 5: REQUIRE(&m.rotatePre(u, g) == &m); NEARM(m, mul(B, Ru)); break;
		case 6: r = m.rotated(u, g); NEARM(r, mul(Ru, B)); break;
		case 7: r = m.rotatedPre(u, g); NEARM(r, mul(B, Ru)); break;
		case 8: REQUIRE(&m.rotate(q) == &m); NEARM(m, mul(Rq, B)); break;
		case 9: REQUIRE(&m.rotatePre(q) == &m); NEARM(m, mul(B, Rq)); break;
		case 10: r = m.rotated(q); NEARM(r, mul(Rq, B)); break;
		case 11: r = m.rotatedPre(q); NEARM(r, mul(B, Rq)); break;
		case 12: REQUIRE(&m.rotate(o) == &m); NEARM(m, mul(O, B)); break;
		case 13: REQUIRE(&m.rotatePre(o) == &m); NEARM(m, mul(B, O)); break;
		case 14: r = m.rotated(o); NEARM(r, mul(O, B)); break;
		case 15: r = m.rotatedPre(o); NEARM(r, mul(B, O)); break;
		case 16: REQUIRE(&m.scale(k) == &m); NEARM(m, mul(A, K)); break;
		default: r = m.scaled(k); NEARM(r, mul(A, K)); break;
		}
		if (r.isInitialized())
		{
			// a copying form leaves its object alone
			NMat<3, Real> A2 = exact(m);
			for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) REQUIRE(A2.e[j][l].v == A.e[j][l].v);
			m = r;
		}
		if (!sane(m)) break;
	}
	c.nontrivial(!startId);
	if (m.isIdentity()) c.label("ends as identity");
	M b = anyMat3<Real>(c, 1);
	Vec3<Real> v = vec3<Real>(c, -4, 4);
	NEARM(m * b, mul(ref(m), ref(b)));
	NEARM(b * m, mul(ref(b), ref(m)));
	{ M x = b; x *= m; NEARM(x, mul(ref(b), ref(m))); }
	{ M x = m; x.rotate(x); NEARM(x, mul(ref(m), ref(m))); }
	{ M x = m; x.rotatePre(x); NEARM(x, mul(ref(m), ref(m))); }
	NEAR3(m * v, v3of(mul(exact(m), nv(v))));
	NMat<3, Real> I;
	if (refInverse(exact(m), 3, I)) { M x = m; x.invert(); NEARM(x, I); }
}

LAW(mat34, 2)
{
	typedef Mat34<Real> M;
	typedef Vec3<Real> V;
	M m = anyMat34<Real>(c, 1);
	SHOWV(m);
	bool startId = m.isIdentity();
	int n = 1 + int(c.draw(6));
	for (int i = 0; i < n; i++)
	{
		NMat<4, Real> A = exact(m), B = ref(m);
		Coord a = coord3<Real>(c);
		V u = c.flip() ? unit3<Real>(c) : nonzero3<Real>(c), t = offset<Real>(c), k = factors3<Real>(c);
		Real g = turn<Real>(c);
		Quat<Real> q = c.flip() ? unitQuat<Real>(c) : Quat<Real>::from(u, g);
		M o = anyMat34<Real>(c, 1);
		NMat<4, Real> Ra = affine(maybeIdentity(nrot(a, g))), Ru = affine(maybeIdentity(nrot(u, g))), Rq = affine(maybeIdentity(nrot(q)));
		NMat<4, Real> T = affine(NMat<3, Real>::identity(), V3<Real>(t)), O = ref(o), OL = affine(ref(o.rs)), K = ndiag<4, Real>(k);
		int op = int(c.draw(14));
		c.show("op", op); c.show("axis", gen::s(u)); c.show("coordinate", int(a)); c.show("angle", g); c.show("factors", gen::s(k)); c.show("offset", gen::s(t)); c.show("other", gen::s(o));
		c.show("q", gen::s(Vec4<Real>(q.x, q.y, q.z, q.w)));
		switch (op)
		{
		case 0: REQUIRE(&m.rotate(a, g) == &m); NEARM(m, mul(Ra, B)); break;
		case 1: REQUIRE(&m.rotatePre(a, g) == &m); NEARM(m, mul(B, Ra)); break;
		case 2: REQUIRE(&m.rotate(u, g) == &m); NEARM(m, mul(Ru, B)); break;
		case 3: REQUIRE(&m.rotatePre(u, g) == &m); NEARM(m, mul(B, Ru)); break;
		case 4: REQUIRE(&m.rotate(q) == &m); NEARM(m, mul(Rq, B)); break;
		case 5: REQUIRE(&m.rotatePre(q) == &m); NEARM(m, mul(B, Rq)); break;
		case 6: REQUIRE(&m.translate(t) == &m); NEARM(m, mul(T, A)); break;
		case 7: REQUIRE(&m.translatePre(t) == &m); NEARM(m, mul(A, T)); break;
		case 8:
		{
			// pinned by the tests: the axes are scaled one by one, and the offset component-wise
			REQUIRE(&m.scale(k) == &m);
			NMat<4, Real> E = mul(A, K);
			E.e[3][0] = A.e[3][0] * Num<Real>(k.x); E.e[3][1] = A.e[3][1] * Num<Real>(k.y); E.e[3][2] = A.e[3][2] * Num<Real>(k.z);
			NEARM(m, E);
			break;
		}
		case 9: REQUIRE(&m.scalePre(k) == &m); NEARM(m, mul(A, K)); break;
		case 10: REQUIRE(&m.transform(o.rs) == &m); NEARM(m, mul(OL, B)); break;
		case 11: REQUIRE(&m.transform(o) == &m); NEARM(m, mul(O, B)); break;
		case 12: if (c.flip()) { REQUIRE(&m.transformPre(o.rs) == &m); } else { REQUIRE(&(m *= o.rs) == &m); } NEARM(m, mul(B, OL)); break;
		default: if (c.flip()) { REQUIRE(&m.transformPre(o) == &m); } else { REQUIRE(&(m *= o) == &m); } NEARM(m, mul(B, O)); break;
		}
		if (!sane(m)) break;
	}
	c.nontrivial(!startId);
	M b = anyMat34<Real>(c, 1);
	V v = vec3<Real>(c, -4, 4);
	NEARM(m * b, mul(ref(m), ref(b)));
	NEARM(b * m, mul(ref(b), ref(m)));
	NEAR3(m * v, v3of(mul(exact(m), nv(v, 1))));
	NMat<4, Real> I;
	if (refInverse(exact(m), 3, I)) { M x = m; x.invert(); NEARM(x, widen(I, 4 * (idErr(exact(m.rs)) <= ID_TOL ? sqrtl(idErr(exact(m.rs))) * (1 + maxAbs(I)) : 0))); }
}

LAW(mat4, 2)
{
	typedef Mat4<Real> M;
	typedef Vec3<Real> V;
	bool proj = c.oneIn(3);
	M m = anyMat4<Real>(c, proj, 1);
	SHOWV(m);
	bool startId = m.isIdentity();
	int n = 1 + int(c.draw(6));
	for (int i = 0; i < n; i++)
	{
		NMat<4, Real> A = exact(m), B = ref(m);
		bool aff = A.e[0][3].v == 0 && A.e[1][3].v == 0 && A.e[2][3].v == 0 && A.e[3][3].v == 1;
		Coord a = coord3<Real>(c);
		V u = c.flip() ? unit3<Real>(c) : nonzero3<Real>(c), t = offset<Real>(c), k = factors3<Real>(c);
		Real g = turn<Real>(c);
		Quat<Real> q = c.flip() ? unitQuat<Real>(c) : Quat<Real>::from(u, g);
		M o = anyMat4<Real>(c, proj, 1), r;
		NMat<4, Real> Ra = affine(maybeIdentity(nrot(a, g))), Ru = affine(maybeIdentity(nrot(u, g))), Rq = affine(maybeIdentity(nrot(q)));
		NMat<4, Real> T = affine(NMat<3, Real>::identity(), V3<Real>(t)), O = ref(o), K = ndiag<4, Real>(k);
		NMat<4, Real> S = mul(A, K);
		S.e[3][0] = A.e[3][0] * Num<Real>(k.x); S.e[3][1] = A.e[3][1] * Num<Real>(k.y); S.e[3][2] = A.e[3][2] * Num<Real>(k.z);
		int op = int(c.draw(aff ? 24 : 22));
		c.show("op", op); c.show("axis", gen::s(u)); c.show("coordinate", int(a)); c.show("angle", g); c.show("factors", gen::s(k)); c.show("offset", gen::s(t)); c.show("other", gen::s(o));
		c.show("q", gen::s(Vec4<Real>(q.x, q.y, q.z, q.w)));
		switch (op)
		{
		case 0: REQUIRE(&m.rotate(a, g) == &m); NEARM(m, mul(Ra, B)); break;
		case 1: REQUIRE(&m.rotatePre(a, g) == &m); NEARM(m, mul(B, Ra)); break;
		case 2: REQUIRE(&m.rotate(u, g) == &m); NEARM(m, mul(Ru, B)); break;
		case 3: REQUIRE(&m.rotatePre(u, g) == &m); NEARM(m, mul(B, Ru)); break;
		case 4: REQUIRE(&m.rotate(q) == &m); NEARM(m, mul(Rq, B)); break;
		case 5: REQUIRE(&m.rotatePre(q) == &m); NEARM(m, mul(B, Rq)); break;
		case 6: r = m.rotated(a, g); NEARM(r, mul(Ra, B)); break;
		case 7: r = m.rotatedPre(a, g); NEARM(r, mul(B, Ra)); break;
		case 8: r = m.rotated(u, g); NEARM(r, mul(Ru, B)); break;
		case 9: r = m.rotatedPre(u, g); NEARM(r, mul(B, Ru)); break;
		case 10: r = m.rotated(q); NEARM(r, mul(Rq, B)); break;
		case 11: r = m.rotatedPre(q); NEARM(r, mul(B, Rq)); break;
		case 12: REQUIRE(&m.transform(o) == &m); NEARM(m, mul(O, B)); break;
		case 13: REQUIRE(&m.transformPre(o) == &m); NEARM(m, mul(B, O)); break;
		case 14: r = m.transformed(o); NEARM(r, mul(O, B)); break;
		case 15: r = m.transformedPre(o); NEARM(r, mul(B, O)); break;
		case 16: REQUIRE(&m.translate(t) == &m); NEARM(m, mul(T, A)); break;
		case 17: REQUIRE(&m.translatePre(t) == &m); NEARM(m, mul(A, T)); break;
		case 18: r = m.translated(t); NEARM(r, mul(T, A)); break;
		case 19: r = m.translatedPre(t); NEARM(r, mul(A, T)); break;
		case 20: REQUIRE(&m.scalePre(k) == &m); NEARM(m, mul(A, K)); break;
		case 21: r = m.scaledPre(k); NEARM(r, mul(A, K)); break;
		// for affine matrices; scale: pinned by the tests like that of the 3x4 transform
		case 22: REQUIRE(&m.scale(k) == &m); NEARM(m, S); break;
		default: r = m.scaled(k); NEARM(r, S); break;
		}
		if (r.isInitialized())
		{
			NMat<4, Real> A2 = exact(m);
			for (int j = 0; j < 4; j++) for (int l = 0; l < 4; l++) REQUIRE(A2.e[j][l].v == A.e[j][l].v);
			m = r;
		}
		if (!sane(m)) break;
	}
	c.nontrivial(!startId);
	if (!m.isTrs()) c.label("projective");
	M b = anyMat4<Real>(c, proj, 1);
	Vec4<Real> v = vec4<Real>(c, -4, 4);
	NEARM(m * b, mul(ref(m), ref(b)));
	NEARM(b * m, mul(ref(b), ref(m)));
	{ M x = m; x.transform(x); NEARM(x, mul(ref(m), ref(m))); }
	{ M x = m; x.transformPre(x); NEARM(x, mul(ref(m), ref(m))); }
	NEAR4(m * v, v4of(mul(exact(m), nv(v))));
	NMat<4, Real> I;
	if (refInverse(exact(m), 3, I))
	{
		NEARM(m.inversed(), I);
		M x = m; x.invert(); NEARM(x, I);
	}
}

FINDING(mat34_scale_rotated, "Mat34 scale() of a transform with a rotated linear part is not composition with the scale: it scales the axes, not their components")
{
	Mat34<double> m = Mat34<double>::from(Coord::Z, 1.0, Vec3<double>(1, 2, 3));
	m.scale(Vec3<double>(2, 1, 1));
	Vec3<double> p = m * Vec3<double>(1, 0, 0);
	return std::fabs(p.x - 2 * (std::cos(1.0) + 1)) > 1e-6 || std::fabs(p.y - (std::sin(1.0) + 2)) > 1e-6;
}
FINDING(mat4_scale_rotated, "Mat4 scale() and scaled() of a transform with a rotated linear part are not composition with the scale: they scale the axes, not their components")
{
	Mat4<double> m = Mat4<double>::from(Coord::Z, 1.0);
	m.scale(Vec3<double>(2, 1, 1));
	Vec3<double> p = m * Vec3<double>(1, 0, 0);
	return std::fabs(p.x - 2 * std::cos(1.0)) > 1e-6 || std::fabs(p.y - std::sin(1.0)) > 1e-6;
}
