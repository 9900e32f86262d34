// C11: 4x4 matrices
#include "mats.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C11";
const char* pbt::RULE = "affine and projective 4x4 matrices from every constructor (rotations, permutations, diagonal, orthogonal, normal, singular, general columns) and up to three further operations; "
	"vectors of three and four components; non-trivial: no operand is flagged identity, and some operand is projective or has a non-zero offset";

template <class R> static bool isZero(const Mat4<R>& m) { return maxAbs(exact(m)) == 0; }
template <class R> static bool interesting(const Mat4<R>& m) { return !m.isTrs() || m.t.x != 0 || m.t.y != 0 || m.t.z != 0; }

LAW(algebra, 2)
{
	typedef Mat4<Real> M;
	typedef Vec3<Real> V;
	typedef Vec4<Real> W;
	bool proj = c.flip();
	M a = anyMat4<Real>(c, proj, 2), b = anyMat4<Real>(c, proj, 2);
	V v = vec3<Real>(c);
	W w = vec4<Real>(c);
	Real k = real<Real>(c);
	SHOWV(a); SHOWV(b); SHOWV(v); SHOWV(w); SHOW(k);
	c.nontrivial(!a.isIdentity() && !b.isIdentity() && (interesting(a) || interesting(b)));
	c.label(proj ? "projective" : "affine");
	NMat<4, Real> A = exact(a);

	NEAR3(a * v, v3of(mul(A, nv(v, 1))));
	{ V d(7, 7, 7); a.transform(d, v); NEAR3(d, v3of(mul(A, nv(v, 1)))); }
	{ V d(7, 7, 7); a.transformVector(d, v); NEAR3(d, v3of(mul(A, nv(v, 0)))); }
	NEAR4(a * w, v4of(mul(A, nv(w))));
	{ W d(7, 7, 7, 7); a.transform(d, w); NEAR4(d, v4of(mul(A, nv(w)))); }
	{ W d(7, 7, 7, 7), w0(w.x, w.y, w.z, Real(0)); a.transformVector(d, w); NEAR4(d, v4of(mul(A, nv(w0)))); }

	NMat<4, Real> P = mul(ref(a), ref(b));
	NEARM(a * b, P);
	{ M x; M::multiply(x, a, b); NEARM(x, P); }
	{ M x = b; REQUIRE(&x.transform(a) == &x); NEARM(x, P); }
	{ M x = a; REQUIRE(&x.transformPre(b) == &x); NEARM(x, P); }
	NEARM(b.transformed(a), P);
	NEARM(a.transformedPre(b), P);
	NMat<4, Real> AA = mul(ref(a), ref(a));
	{ M x = a; x.transform(x); NEARM(x, AA); }
	{ M x = a; x.transformPre(x); NEARM(x, AA); }
	{ M x = a; x = x * x; NEARM(x, AA); }

	NEARM(-a, scaleOf(A, Num<Real>(-1)));
	NEARM(a * k, scaleOf(A, Num<Real>(k)));
	{ M x = a; REQUIRE(&(x *= k) == &x); NEARM(x, scaleOf(A, Num<Real>(k))); }
	if (k != 0)
	{
		NMat<4, Real> Q;
		for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) Q.e[j][i] = A.e[j][i] / Num<Real>(k);
		NEARM(a / k, Q);
		M x = a; REQUIRE(&(x /= k) == &x); NEARM(x, Q);
	}
	else REQUIRE(isZero(a * k));
	NEARM(a.transposed(), transposeOf(A));
	{ M x = a; REQUIRE(&x.transpose() == &x); NEARM(x, transposeOf(A)); SAMEM(x.transpose(), a); }
	NEAR(a.determinant(), det(A));
	NEAR(a.trace(), A.e[0][0] + A.e[1][1] + A.e[2][2] + A.e[3][3]);
	{
		int rows = a.isTrs() ? 3 : 4;
		Num<Real> nn, oo, dd;
		for (int j = 0; j < 4; j++)
		{
			for (int i = 0; i < 4; i++) { Num<Real> d = A.e[j][i] - Num<Real>(i == j); dd = dd + d * d; }
			if (j == 3 && a.isTrs()) continue;
			Num<Real> n(-1);
			for (int i = 0; i < rows; i++) n = n + A.e[j][i] * A.e[j][i];
			nn = nn + n * n;
			for (int q = j + 1; q < 3; q++)
			{
				Num<Real> o;
				for (int i = 0; i < rows; i++) o = o + A.e[j][i] * A.e[q][i];
				oo = oo + o * o;
			}
		}
		NEAR(a.normalError(), nn);
		NEAR(a.orthogonalError(), oo);
		NEAR(a.identityError(), dd);
	}

	REQUIRE((a == b) == sameElems(a, b));
	REQUIRE((a != b) == !sameElems(a, b));
	REQUIRE(a == a && !(a != a));
	{ int i = int(c.draw(16)); M x = a; Real* p = x.data(); p[i] += Real(1) + fabs(p[i]); REQUIRE(x != a && !(x == a));
	  const Real* q = static_cast<const M&>(a).data();
	  for (int j = 0; j < 16; j++) REQUIRE(LD(q[j]) == A.e[j / 4][j % 4].v); }
	{ M x; REQUIRE(&x.set(a) == &x); SAMEM(x, a); x = b; SAMEM(x, b); M y(a); SAMEM(y, a); }
	{
		Mat4<float> f = a.template cast<float>();
		Mat4<double> g = a.template cast<double>();
		const Real* q = a.data();
		for (int j = 0; j < 16; j++) { REQUIRE(f.data()[j] == float(q[j])); REQUIRE(g.data()[j] == double(q[j])); }
	}
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	int i = int(c.draw(3));
	const W* cols[3] = {&a.x, &a.y, &a.z};
	{ const M& k2 = a; SAME4(k2[cs[i]], *cols[i]); M x = a; x[cs[i]] = w; NMat<4, Real> X = A; X.e[i][0] = w.x; X.e[i][1] = w.y; X.e[i][2] = w.z; X.e[i][3] = w.w; NEARM(x, X); }
}

LAW(inverse, 2)
{
	typedef Mat4<Real> M;
	bool proj = c.flip();
	M a = anyMat4<Real>(c, proj, 3);
	if (c.oneIn(8))
	{
		// exactly singular in integers
		typedef Vec4<Real> W;
		W x(grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4)), y(grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4)),
			z(grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4), grid<Real>(c, 4));
		W d = x * grid<Real>(c, 2) + y * grid<Real>(c, 2) + z * grid<Real>(c, 2);
		switch (c.draw(4)) { case 0: a = M(x, y, z, d); break; case 1: a = M(d, x, y, z); break; case 2: a = M(x, d, y, z); break; default: a = M(x, y, d, z); }
	}
	Real size = wholeSize<Real>(c), last = 1;
	if (size != 1)
	{
		// all of it, or the linear part alone
		last = a.isTrs() && c.flip() ? Real(1) : size;
		a = M(a.x * size, a.y * size, a.z * size, a.t * last);
	}
	SHOWV(a);
	M r = a.inversed(), q = a;
	REQUIRE(&q.invert() == &q);
	NMat<4, Real> A = exact(a), I;
	bool ints = true;
	for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++)
		if (!(A.e[j][i].v / (j < 3 ? size : last) == rintl(A.e[j][i].v / (j < 3 ? size : last)) && fabsl(A.e[j][i].v / (j < 3 ? size : last)) < 20)) ints = false;
	if (ints && det(A).v == 0)
	{
		c.label("singular");
		REQUIREM(isZero(r), "the inverse of a singular matrix is Zero");
		REQUIREM(isZero(q), "the inverse of a singular matrix is Zero");
		return;
	}
	if (a.isTrs() && a.isOrthonormal()) c.label("rigid"); else if (a.isTrs()) c.label("affine"); else if (a.isOrthonormal()) c.label("projective, flagged orthonormal"); else c.label("projective");
	LD dev = orthoDev(A, 3);
	if (!a.isTrs())
	{
		Num<Real> D = det(A);
		if (!solidDet(A)) { c.label("skipped"); return; }
		I = inverseOf(A);
		dev = 0;
	}
	else if (!refInverse(A, 3, I)) { c.label("skipped"); return; }
	if (a.isTrs() && a.isOrthonormal()) I = widen(I, 16 * dev * (1 + maxAbs(I)));
	NEARM(r, I);
	NEARM(q, I);
	c.nontrivial(!a.isIdentity() && interesting(a));
	LD cond = (1 + maxAbs(A)) * (1 + maxAbs(I)), slack = 64 * Num<Real>::u() * cond * cond + 16 * dev * cond * (dev < 1e-4L);
	if (a.isIdentity() || q.isIdentity() || r.isIdentity()) slack += 2e-5L * cond;
	if (!(slack < 0.1L)) return;
	M one[4] = { a * q, q * a, a * r, r * a };
	for (int n = 0; n < 4; n++)
	{
		NMat<4, Real> E = exact(one[n]);
		for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++)
			REQUIREM(fabsl(E.e[j][i].v - (i == j)) <= slack, "product " + std::to_string(n) + " is " + gen::s(one[n]));
	}
	Vec4<Real> w = vec4<Real>(c, -4, 4), z = q * (a * w);
	LD l = 1 + len(w.x, w.y, w.z) + fabsl(LD(w.w));
	REQUIRE(len(z.x - w.x, z.y - w.y, z.z - w.z) <= 8 * slack * l && fabsl(LD(z.w) - w.w) <= 8 * slack * l);
}

LAW(construct, 2)
{
	typedef Mat4<Real> M;
	typedef Vec3<Real> V;
	typedef Vec4<Real> W;
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	V t = vec3<Real>(c);
	bool plain = c.oneIn(4);
	V t0 = plain ? V(0, 0, 0) : t;
	Mat3<Real> rs;
	M m, n = c.flip() ? M(Real(3)) : M(W(1, 2, 3, 4), W(5, 6, 7, 8), W(9, 1, 2, 3), W(4, 5, 6, 7));
	bool elementsOnly = false;
	switch (c.draw(9))
	{
	case 0:
	{
		Real k = real<Real>(c);
		SHOW(k);
		m = M(k);
		NMat<4, Real> D;
		D.e[0][0] = D.e[1][1] = D.e[2][2] = Num<Real>(k); D.e[3][3] = Num<Real>(1);
		NEARM(m, D);
		SAMEM(M::One, M(Real(1)));
		REQUIRE(isZero(M::Zero));
		REQUIRE(&n.setIdentity() == &n);
		SAMEM(n, M::One);
		REQUIRE(n.isIdentity() && n.isTrs() && n.isOrthonormal());
		REQUIRE(!M().isInitialized());
		return;
	}
	case 1:
		rs = anyMat3<Real>(c, 2);
		m = plain ? M(rs) : M(rs, t);
		REQUIRE(&(plain ? n.set(rs) : n.set(rs, t)) == &n);
		break;
	case 2:
	{
		V x, y, z;
		columns3<Real>(c, x, y, z);
		rs = Mat3<Real>(x, y, z);
		m = plain ? M(x, y, z) : M(x, y, z, t);
		REQUIRE(&(plain ? n.set(x, y, z) : n.set(x, y, z, t)) == &n);
		SAMEM((plain ? M::from(x, y, z) : M::from(x, y, z, t)), m);
		break;
	}
	case 3:
	{
		Quat<Real> q = unitQuat<Real>(c);
		rs = Mat3<Real>::from(q);
		m = plain ? M::from(q) : M::from(q, t);
		REQUIRE(&(plain ? n.set(q) : n.set(q, t)) == &n);
		break;
	}
	case 4:
	{
		V a = c.flip() ? unit3<Real>(c) : nonzero3<Real>(c);
		Real g = angle<Real>(c);
		t0 = V(0, 0, 0);
		rs = Mat3<Real>::from(a, g);
		m = M::from(a, g);
		REQUIRE(&n.set(a, g) == &n);
		break;
	}
	case 5:
	{
		Coord a = coord3<Real>(c);
		Real g = angle<Real>(c);
		t0 = V(0, 0, 0);
		rs = Mat3<Real>::from(a, g);
		m = M::from(a, g);
		REQUIRE(&n.set(a, g) == &n);
		break;
	}
	case 6:
	{
		int e = int(c.draw(3)), a = (e + 1 + int(c.draw(2))) % 3;
		V u = nonzero3<Real>(c), v = nonzero3<Real>(c);
		if (c.oneIn(8)) u = V(0, 0, 0);
		else if (c.oneIn(8)) { u = V(Real(e == 0), Real(e == 1), Real(e == 2)); v = u * Real(c.range(-2, 2)); }
		t0 = V(0, 0, 0);
		rs = Mat3<Real>::from(cs[e], u, cs[a], v);
		m = M::from(cs[e], u, cs[a], v);
		REQUIRE(&n.set(cs[e], u, cs[a], v) == &n);
		break;
	}
	case 7:
	{
		// orthonormalising keeps the rotation and drops drift and offset
		Quat<Real> q = unitQuat<Real>(c);
		rs = Mat3<Real>::from(q);
		Real eps = between<Real>(c, Real(-0.01), Real(0.01));
		m = M(rs.x * (1 + eps), rs.y * (1 + eps), rs.z * (1 + eps), t0);
		REQUIRE(&m.orthonormalise() == &m);
		NMat<4, Real> E = affine(exact(rs));
		E = widen(E, 64 * Num<Real>::u() + fabsl(LD(eps)));
		NEARM(m, E);
		REQUIRE(orthoDev(exact(m), 4) <= 64 * Num<Real>::u());
		REQUIRE(m.isOrthonormal() && m.isTrs());
		return;
	}
	default:
	{
		elementsOnly = true;
		W x = vec4<Real>(c), y = vec4<Real>(c), z = vec4<Real>(c), w = plain ? W(0, 0, 0, 1) : vec4<Real>(c);
		m = plain ? M(x, y, z) : M(x, y, z, w);
		REQUIRE(&(plain ? n.set(x, y, z) : n.set(x, y, z, w)) == &n);
		SAME4(m.x, x); SAME4(m.y, y); SAME4(m.z, z); SAME4(m.t, w);
		SAMEM((plain ? M::from(x, y, z) : M::from(x, y, z, w)), m);
		c.nontrivial(true);
	}
	}
	SAMEM(n, m);
	REQUIRE(m.isInitialized() && n.isInitialized());
	if (elementsOnly) return;
	SHOWV(rs); SHOWV(t0);
	c.nontrivial(!rs.isIdentity());
	NEARM(m, affine(exact(rs), V3<Real>(t0)));
	REQUIRE(m.x.w == 0 && m.y.w == 0 && m.z.w == 0 && m.t.w == 1);
	REQUIRE(m.isTrs());
	V v = vec3<Real>(c);
	NEAR3(m * v, v3of(mul(affine(exact(rs), V3<Real>(t0)), nv(v, 1))));
	V d;
	m.transformVector(d, v);
	NEAR3(d, v3of(mul(affine(exact(rs)), nv(v, 0))));
}

LAW(localGeometry, 1)
{
	typedef Mat4<Real> M;
	typedef Vec3<Real> V;
	V col[3] = {nonzero3<Real>(c), nonzero3<Real>(c), nonzero3<Real>(c)}, t = vec3<Real>(c);
	M m(col[0], col[1], col[2], t);
	SHOWV(m);
	c.nontrivial(!t.isNull());
	static const Coord cs[3] = {Coord::X, Coord::Y, Coord::Z};
	static const Axis ax[6] = {Axis::X, Axis::Y, Axis::Z, Axis::NX, Axis::NY, Axis::NZ};
	for (int k = 0; k < 3; k++)
	{
		V3<Real> u(col[k]);
		Num<Real> l = length(u);
		u = V3<Real>(u.x / l, u.y / l, u.z / l);
		Ray3<Real> r = m.localAxis(cs[k]);
		SAME3(r.start, t);
		NEAR3(r.direction, u);
		Plane<Real> p = m.localPlane(cs[k]), q = m.localPlane(ax[k]), o = m.localPlane(ax[k + 3]);
		NEAR3(p.normal, u);
		NEAR3(q.normal, u);
		NEAR3(o.normal, u * Num<Real>(-1));
		NEAR(p.d, dot(u, V3<Real>(t)));
		NEAR(q.d, dot(u, V3<Real>(t)));
		NEAR(o.d, -dot(u, V3<Real>(t)));
	}
}

FINDING(mat4_invert_nearly_normal, "Mat4 of 1.005 on the diagonal: invert() gives 1.005 instead of 1/1.005: within the 0.001 tolerance on squared errors it counts as orthonormal and is transposed")
{
	Mat4<double> m(Vec3<double>(1.005, 0, 0), Vec3<double>(0, 1.005, 0), Vec3<double>(0, 0, 1.005), Vec3<double>(1, 2, 3));
	m.invert();
	return std::fabs(m.x.x - 1 / 1.005) > 1e-6;
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	Mat4<Real> a, b; a.setIdentity(); b.setIdentity(); equality<Real>(c, a, b, { &a.x.x, &a.x.y, &a.x.z, &a.x.w, &a.y.x, &a.y.y, &a.y.z, &a.y.w, &a.z.x, &a.z.y, &a.z.z, &a.z.w, &a.t.x, &a.t.y, &a.t.z, &a.t.w }, { &b.x.x, &b.x.y, &b.x.z, &b.x.w, &b.y.x, &b.y.y, &b.y.z, &b.y.w, &b.z.x, &b.z.y, &b.z.z, &b.z.w, &b.t.x, &b.t.y, &b.t.z, &b.t.w });
}
