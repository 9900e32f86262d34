// C10: 3x4 transforms
#include "mats.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C10";
const char* pbt::RULE = "3x4 transforms with linear parts from every 3x3 constructor and up to two further operations, and any offset; points, vectors, rotations and frames; "
	"non-trivial: the operands' linear parts are not flagged identity and an offset is non-zero";

template <class R> static V3<R> apply(const NMat<4, R>& a, V3<R> p)
{
	NVec<4, R> u;
	u.v[0] = p.x; u.v[1] = p.y; u.v[2] = p.z; u.v[3] = Num<R>(1);
	return v3of(mul(a, u));
}

LAW(algebra, 2)
{
	typedef Mat34<Real> M;
	typedef Vec3<Real> V;
	M a = anyMat34<Real>(c), b = anyMat34<Real>(c);
	Mat3<Real> r = anyMat3<Real>(c, 1);
	V v = vec3<Real>(c);
	SHOWV(a); SHOWV(b); SHOWV(r); SHOWV(v);
	c.nontrivial(!a.rs.isIdentity() && !b.rs.isIdentity() && (a.t != V::Zero || b.t != V::Zero));
	NMat<4, Real> A = exact(a), AB = mul(ref(a), ref(b)), AR = mul(ref(a), affine(ref(r)));

	// points are moved, vectors (differences of points) are not
	NEAR3(a * v, v3of(mul(A, nv(v, 1))));
	{ V d(7, 7, 7); a.transform(d, v); NEAR3(d, v3of(mul(A, nv(v, 1)))); }
	NEAR3(a.rs * v, v3of(mul(A, nv(v, 0))));

	NEARM(a * b, AB);
	NEARM(a * r, AR);
	{ M x = a; REQUIRE(&(x *= b) == &x); NEARM(x, AB); }
	{ M x = a; REQUIRE(&(x *= r) == &x); NEARM(x, AR); }
	{ M x = a; REQUIRE(&x.transformPre(b) == &x); NEARM(x, AB); }
	{ M x = b; REQUIRE(&x.transform(a) == &x); NEARM(x, AB); }
	{ M x = a; REQUIRE(&x.transformPre(r) == &x); NEARM(x, AR); }
	{ M x = a; REQUIRE(&x.transform(r) == &x); NEARM(x, mul(affine(ref(r)), ref(a))); }
	{ M x; M::multiply(x, a, b); NEARM(x, AB); }
	NMat<4, Real> AA = mul(ref(a), ref(a));
	{ M x = a; x *= x; NEARM(x, AA); }
	{ M x = a; x.transform(x); NEARM(x, AA); }
	{ M x = a; x.transformPre(x.rs); NEARM(x, mul(ref(a), affine(ref(a.rs)))); }
	{ M x = a; x.transform(x.rs); NEARM(x, mul(affine(ref(a.rs)), ref(a))); }

	// the product acts as the composition
	{
		V p = (a * b) * v, q = a * (b * v);
		V3<Real> w = apply(ref(a), apply(ref(b), V3<Real>(v)));
		NEAR3K(p, w, 64);
		NEAR3K(q, w, 64);
	}
	{
		M n = -a;
		NMat<4, Real> N = scaleOf(A, Num<Real>(-1));
		N.e[3][3] = Num<Real>(1);
		NEARM(n, N);
	}
	{
		M x = a;
		REQUIRE(&x.transpose() == &x);
		SAMEM(x.rs, a.rs.transposed());
		SAME3(x.t, a.t);
		NMat<3, Real> L;
		for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) L.e[j][i] = A.e[i][j];
		NEARM(x.rs, L);
	}
	REQUIRE((a == b) == sameElems(a, b));
	REQUIRE((a != b) == !sameElems(a, b));
	REQUIRE(a == a && !(a != a));
	{
		int i = int(c.draw(12));
		M x = a;
		Real* p = i < 9 ? x.rs.data() + i : x.t.data() + (i - 9);
		*p += Real(1) + fabs(*p);
		REQUIRE(x != a && !(x == a));
		REQUIRE(a != x && !(a == x));
	}
	{
		const Real* p = static_cast<const M&>(a).data();
		M x = a;
		REQUIRE(x.data() == x.rs.data() && p == a.rs.data());
		for (int j = 0; j < 9; j++) REQUIRE(LD(p[j]) == A.e[j / 3][j % 3].v);
	}
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	int k = int(c.draw(3));
	const V* cols[3] = {&a.rs.x, &a.rs.y, &a.rs.z};
	{ const M& k2 = a; SAME3(k2[cs[k]], *cols[k]); M x = a; x[cs[k]] = v; NMat<4, Real> X = A; X.e[k][0] = v.x; X.e[k][1] = v.y; X.e[k][2] = v.z; NEARM(x, X); }
	{
		Mat34<float> f = a.template cast<float>();
		Mat34<double> g = a.template cast<double>();
		for (int j = 0; j < 9; j++) { REQUIRE(f.rs.data()[j] == float(a.rs.data()[j])); REQUIRE(g.rs.data()[j] == double(a.rs.data()[j])); }
		for (int j = 0; j < 3; j++) { REQUIRE(f.t.data()[j] == float(a.t.data()[j])); REQUIRE(g.t.data()[j] == double(a.t.data()[j])); }
	}
	{ M x; x.set(a); SAMEM(x, a); x = b; SAMEM(x, b); M y(a); SAMEM(y, a); REQUIRE(x.isNormal() == x.rs.isNormal() && x.isOrthogonal() == x.rs.isOrthogonal() && x.isOrthonormal() == x.rs.isOrthonormal()); }
}

LAW(construct, 1)
{
	typedef Mat34<Real> M;
	typedef Vec3<Real> V;
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	V t = vec3<Real>(c);
	bool plain = c.oneIn(4);
	V t0 = plain ? V(0, 0, 0) : t;
	Mat3<Real> rs;
	M m, n;
	switch (c.draw(9))
	{
	case 0:
	{
		Real k = real<Real>(c);
		SHOW(k);
		m = M(k);
		NMat<4, Real> D;
		D.e[0][0] = D.e[1][1] = D.e[2][2] = Num<Real>(k); D.e[3][3] = Num<Real>(1);
		NEARM(m, D);
		SAMEM(M::One, M(Real(1)));
		SAMEM(M::Zero, M(Real(0)));
		REQUIRE(&n.setIdentity() == &n);
		SAMEM(n, M::One);
		REQUIRE(n.isIdentity());
		REQUIRE(!M().isInitialized());
		return;
	}
	case 1:
		rs = anyMat3<Real>(c, 2);
		m = plain ? M(rs) : M(rs, t);
		REQUIRE(&(plain ? n.set(rs) : n.set(rs, t)) == &n);
		break;
	case 2:
	{
		V x, y, z;
		columns3<Real>(c, x, y, z);
		rs = Mat3<Real>(x, y, z);
		m = M(x, y, z, t0);
		REQUIRE(&(plain ? n.set(x, y, z) : n.set(x, y, z, t)) == &n);
		SAMEM(M::from(x, y, z, t0), m);
		break;
	}
	case 3:
	{
		Quat<Real> q = unitQuat<Real>(c);
		rs = Mat3<Real>::from(q);
		m = plain ? M::from(q) : M::from(q, t);
		REQUIRE(&(plain ? n.set(q) : n.set(q, t)) == &n);
		break;
	}
	case 4:
	{
		V a = c.flip() ? unit3<Real>(c) : nonzero3<Real>(c);
		Real g = angle<Real>(c);
		rs = Mat3<Real>::from(a, g);
		m = plain ? M::from(a, g) : M::from(a, g, t);
		REQUIRE(&(plain ? n.set(a, g) : n.set(a, g, t)) == &n);
		break;
	}
	case 5:
	{
		Coord a = coord3<Real>(c);
		Real g = angle<Real>(c);
		rs = Mat3<Real>::from(a, g);
		m = plain ? M::from(a, g) : M::from(a, g, t);
		REQUIRE(&(plain ? n.set(a, g) : n.set(a, g, t)) == &n);
		break;
	}
	case 6:
	{
		int e = int(c.draw(3)), a = (e + 1 + int(c.draw(2))) % 3;
		V u = nonzero3<Real>(c), v = nonzero3<Real>(c);
		rs = Mat3<Real>::from(cs[e], u, cs[a], v);
		t0 = V(0, 0, 0);
		m = M::from(cs[e], u, cs[a], v);
		n.t = t;
		REQUIRE(&n.set(cs[e], u, cs[a], v) == &n);
		break;
	}
	default:
	{
		Quat<Real> q = unitQuat<Real>(c), p = unitQuat<Real>(c);
		M a = M::from(q, vec3<Real>(c, -4, 4)), b = M::from(p, vec3<Real>(c, -4, 4));
		n.t = t;
		t0 = V(0, 0, 0);
		if (c.flip())
		{
			Real w = unit01<Real>(c);
			rs = Mat3<Real>::fromSlerp(a.rs, b.rs, w);
			m = M::fromSlerp(a, b, w);
			REQUIRE(&n.slerp(a, b, w) == &n);
		}
		else
		{
			Real w = between<Real>(c, Real(0), Real(3.2));
			rs = Mat3<Real>::fromSlerpMaxAngle(a.rs, b.rs, w);
			m = M::fromSlerpMaxAngle(a, b, w);
			REQUIRE(&n.slerpMaxAngle(a, b, w) == &n);
		}
	}
	}
	SHOWV(rs); SHOWV(t0);
	c.nontrivial(!rs.isIdentity() && (t0.x != 0 || t0.y != 0 || t0.z != 0));
	SAMEM(m.rs, rs);
	SAME3(m.t, t0);
	SAMEM(n, m);
	REQUIRE(m.isInitialized() && n.isInitialized());
	V v = vec3<Real>(c);
	NEAR3(m * v, v3of(mul(affine(exact(rs), V3<Real>(t0)), nv(v, 1))));
}

LAW(inverse, 2)
{
	typedef Mat34<Real> M;
	typedef Vec3<Real> V;
	M a = anyMat34<Real>(c);
	if (c.oneIn(6))
	{
		V x(grid<Real>(c), grid<Real>(c), grid<Real>(c)), y(grid<Real>(c), grid<Real>(c), grid<Real>(c));
		a = M(x, y, x * grid<Real>(c, 3) + y * grid<Real>(c, 3), vec3<Real>(c, -4, 4));
	}
	Real size = wholeSize<Real>(c);
	if (size != 1) a = M(a.rs.x * size, a.rs.y * size, a.rs.z * size, a.t);
	V v = vec3<Real>(c, -6, 6);
	SHOWV(a); SHOWV(v);
	M q = a;
	REQUIRE(&q.invert() == &q);
	NMat<4, Real> A = exact(a), I;
	bool ints = true;
	for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++)
		if (!(A.e[j][i].v / size == rintl(A.e[j][i].v / size) && fabsl(A.e[j][i].v / size) < 60)) ints = false;
	if (ints && det(A).v == 0)
	{
		c.label("singular");
		REQUIREM(maxAbs(exact(q.rs)) == 0 && q.t.isNull(), "the inverse of a singular transform is Zero");
		return;
	}
	if (a.isIdentity()) c.label("identity"); else if (a.isOrthonormal()) c.label("orthonormal"); else c.label("general");
	if (!refInverse(A, 3, I)) { c.label("skipped"); return; }
	if (a.isOrthonormal()) I = widen(I, 16 * orthoDev(A, 3) * (1 + maxAbs(I)));
	if (a.isIdentity()) I = widen(I, 2 * sqrtl(idErrOf(a)));
	NEARM(q, I);
	c.nontrivial(!a.rs.isIdentity() && !a.t.isNull());
	LD cond = (1 + maxAbs(A)) * (1 + maxAbs(I)), slack = 64 * Num<Real>::u() * cond * cond + 16 * orthoDev(A, 3) * cond * (orthoDev(A, 3) < 1e-4L);
	if (a.isIdentity() || q.rs.isIdentity()) slack += 2e-5L * cond;
	if (!(slack < 0.1L)) return;
	M one[2] = { a * q, q * a };
	for (int n = 0; n < 2; n++)
	{
		NMat<4, Real> E = exact(one[n]);
		for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++)
			REQUIREM(fabsl(E.e[j][i].v - (i == j)) <= slack, "product " + std::to_string(n) + " is " + gen::s(one[n]));
	}
	V w = q * (a * v);
	REQUIRE(len(w.x - v.x, w.y - v.y, w.z - v.z) <= 4 * slack * (1 + len(v.x, v.y, v.z)));
}

LAW(localGeometry, 1)
{
	typedef Mat34<Real> M;
	typedef Vec3<Real> V;
	V col[3] = {nonzero3<Real>(c), nonzero3<Real>(c), nonzero3<Real>(c)}, t = vec3<Real>(c);
	M m(col[0], col[1], col[2], t);
	SHOWV(m);
	c.nontrivial(!t.isNull());
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	static const Axis ax[6] = {Axis::X, Axis::Y, Axis::Z, Axis::NX, Axis::NY, Axis::NZ};
	for (int k = 0; k < 3; k++)
	{
		V3<Real> u(col[k]);
		Num<Real> l = length(u);
		u = V3<Real>(u.x / l, u.y / l, u.z / l);
		Ray3<Real> r = m.localAxis(cs[k]);
		SAME3(r.start, t);
		NEAR3(r.direction, u);
		Plane<Real> p = m.localPlane(cs[k]), q = m.localPlane(ax[k]), o = m.localPlane(ax[k + 3]);
		NEAR3(p.normal, u);
		NEAR3(q.normal, u);
		NEAR3(o.normal, u * Num<Real>(-1));
		NEAR(p.d, dot(u, V3<Real>(t)));
		NEAR(q.d, dot(u, V3<Real>(t)));
		NEAR(o.d, -dot(u, V3<Real>(t)));
	}
}

FINDING(mat34_invert_nearly_normal, "Mat34(1.005).invert() gives 1.005 instead of 1/1.005: within the 0.001 tolerance on squared errors it counts as orthonormal and is transposed")
{
	Mat34<double> m(Vec3<double>(1.005, 0, 0), Vec3<double>(0, 1.005, 0), Vec3<double>(0, 0, 1.005), Vec3<double>(1, 2, 3));
	m.invert();
	return std::fabs(m.rs.x.x - 1 / 1.005) > 1e-6;
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	Mat34<Real> a, b; a.rs.setIdentity(); b.rs.setIdentity(); equality<Real>(c, a, b, { &a.rs.x.x, &a.rs.x.y, &a.rs.x.z, &a.rs.y.x, &a.rs.y.y, &a.rs.y.z, &a.rs.z.x, &a.rs.z.y, &a.rs.z.z, &a.t.x, &a.t.y, &a.t.z }, { &b.rs.x.x, &b.rs.x.y, &b.rs.x.z, &b.rs.y.x, &b.rs.y.y, &b.rs.y.z, &b.rs.z.x, &b.rs.z.y, &b.rs.z.z, &b.t.x, &b.t.y, &b.t.z });
}
