// C06: 3x3 matrix algebra
#include "mats.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C06";
const char* pbt::RULE = "3x3 matrices obtained by a constructor (scalar, identity, rotation, permutation, diagonal, orthogonal, normal, singular, general) and up to three "
	"further operations of twenty kinds; non-trivial: no operand is flagged identity and none is zero";

template <class R> static bool isZero(const Mat3<R>& m) { return maxAbs(exact(m)) == 0; }

LAW(algebra, 2)
{
	typedef Mat3<Real> M;
	typedef Vec3<Real> V;
	M a = anyMat3<Real>(c), b = anyMat3<Real>(c);
	V v = vec3<Real>(c);
	Real k = real<Real>(c);
	SHOWV(a); SHOWV(b); SHOWV(v); SHOW(k);
	NMat<3, Real> A = exact(a), B = exact(b);
	c.nontrivial(!a.isIdentity() && !b.isIdentity() && !isZero(a) && !isZero(b));
	if (a.isIdentity() || b.isIdentity()) c.label("identity flag");
	if (a.isOrthonormal()) c.label("orthonormal flag");

	NEAR3(a * v, v3of(mul(A, nv(v))));
	{ V d(7, 7, 7); a.transform(d, v); NEAR3(d, v3of(mul(A, nv(v)))); }
	NEAR3(v * a, v3of(mul(transposeOf(A), nv(v))));
	{ V d = v; REQUIRE(&(d *= a) == &d); NEAR3(d, v3of(mul(transposeOf(A), nv(v)))); }

	NMat<3, Real> P = mul(ref(a), ref(b));
	NEARM(a * b, P);
	{ M x = a; REQUIRE(&(x *= b) == &x); NEARM(x, P); }
	{ M x; M::multiply(x, a, b); NEARM(x, P); }
	{ M x = a; x *= x; NEARM(x, mul(ref(a), ref(a))); }
	NEARM(-a, scaleOf(A, Num<Real>(-1)));
	NEARM(a * k, scaleOf(A, Num<Real>(k)));
	{ M x = a; REQUIRE(&(x *= k) == &x); NEARM(x, scaleOf(A, Num<Real>(k))); }
	if (k != 0)
	{
		NMat<3, Real> Q;
		for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) Q.e[j][i] = A.e[j][i] / Num<Real>(k);
		NEARM(a / k, Q);
		M x = a; REQUIRE(&(x /= k) == &x); NEARM(x, Q);
	}
	NEARM(a.transposed(), transposeOf(A));
	{ M x = a; REQUIRE(&x.transpose() == &x); NEARM(x, transposeOf(A)); SAMEM(x.transpose(), a); }
	NEARM(a.cofactors(), cofactorsOf(A));
	NEARM(a.adjoint(), adjointOf(A));
	NEAR(a.determinant(), det(A));
	NEAR(a.trace(), A.e[0][0] + A.e[1][1] + A.e[2][2]);
	{
		Num<Real> nn, oo, dd;
		for (int j = 0; j < 3; j++)
		{
			Num<Real> n = A.e[j][0] * A.e[j][0] + A.e[j][1] * A.e[j][1] + A.e[j][2] * A.e[j][2] - Num<Real>(1);
			nn = nn + n * n;
			for (int q = j + 1; q < 3; q++)
			{
				Num<Real> o = A.e[j][0] * A.e[q][0] + A.e[j][1] * A.e[q][1] + A.e[j][2] * A.e[q][2];
				oo = oo + o * o;
			}
			for (int i = 0; i < 3; i++) { Num<Real> d = A.e[j][i] - Num<Real>(i == j); dd = dd + d * d; }
		}
		NEAR(a.normalError(), nn);
		NEAR(a.orthogonalError(), oo);
		NEAR(a.identityError(), dd);
	}

	REQUIRE((a == b) == sameElems(a, b));
	REQUIRE((a != b) == !sameElems(a, b));
	REQUIRE(a == a && !(a != a));
	{ int i = int(c.draw(9)); M x = a; Real* p = x.data(); p[i] += Real(1) + fabs(p[i]); REQUIRE(x != a && !(x == a));
	  const Real* q = static_cast<const M&>(a).data();
	  for (int j = 0; j < 9; j++) REQUIRE(LD(q[j]) == A.e[j / 3][j % 3].v); }
	{ M x; x.set(a); SAMEM(x, a); x = b; SAMEM(x, b); M y(a); SAMEM(y, a); }
	{
		Mat3<float> f = a.template cast<float>();
		Mat3<double> g = a.template cast<double>();
		const Real* q = a.data();
		for (int j = 0; j < 9; j++) { REQUIRE(f.data()[j] == float(q[j])); REQUIRE(g.data()[j] == double(q[j])); }
	}
}

LAW(inverse, 2)
{
	typedef Mat3<Real> M;
	M a = anyMat3<Real>(c);
	if (c.oneIn(8))
	{
		// exactly singular in integers
		Vec3<Real> x(grid<Real>(c), grid<Real>(c), grid<Real>(c)), y(grid<Real>(c), grid<Real>(c), grid<Real>(c));
		Real k = grid<Real>(c, 3), l = grid<Real>(c, 3);
		a = M(x, y, x * k + y * l);
	}
	Real size = wholeSize<Real>(c);
	if (size != 1) a = M(a.x * size, a.y * size, a.z * size);
	SHOWV(a);
	M r = a.inversed(), q = a;
	REQUIRE(&q.invert() == &q);
	NMat<3, Real> A = exact(a);
	bool ints = true;
	for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++)
		if (!(A.e[j][i].v / size == rintl(A.e[j][i].v / size) && fabsl(A.e[j][i].v / size) < 60)) ints = false;
	if (ints && det(A).v == 0)
	{
		c.label("singular");
		REQUIREM(isZero(r), "the inverse of a singular matrix is Zero");
		REQUIREM(isZero(q), "the inverse of a singular matrix is Zero");
		return;
	}
	if (a.isOrthonormal()) c.label("orthonormal flag");
	if (nearOrthonormal(A, 3)) { c.label("near orthonormal"); return; }
	NMat<3, Real> I;
	Num<Real> d = det(A);
	if (!solidDet(A)) { c.label("ill-conditioned"); return; }
	I = inverseOf(A);
	NEARM(r, I);
	c.nontrivial(!a.isIdentity());
	if (!refInverse(A, 3, I)) return;
	NEARM(q, I);

	// later use of the inverse: composes with the original to the identity and undoes it
	Vec3<Real> v = vec3<Real>(c);
	LD cond = maxAbs(A) * maxAbs(I), slack = 64 * Num<Real>::u() * cond * (1 + cond);
	if (!(slack < 0.1L)) return;
	// orthonormal but for a rounding: inverted by transposing
	if (orthoDev(A, 3) <= 1e-5L) slack += 4 * orthoDev(A, 3);
	M one[4] = { a * q, q * a, a * r, r * a };
	for (int n = 0; n < 4; n++)
	{
		NMat<3, Real> E = exact(one[n]);
		for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++)
			REQUIREM(fabsl(E.e[j][i].v - (i == j)) <= slack + 2e-5L * (a.isIdentity() || q.isIdentity() || r.isIdentity()), "product " + std::to_string(n) + " is " + gen::s(one[n]));
	}
	// (slack relative to the images under the matrices)
	Vec3<Real> w = q * (a * v);
	LD l = len(v.x, v.y, v.z);
	REQUIRE(len(w.x - v.x, w.y - v.y, w.z - v.z) <= 4 * slack * (1 + l));
	NMat<3, Real> Q = exact(q);
	M qq = q;
	qq.invert();
	if (nearOrthonormal(Q, 3)) return;
	LD tol = slack * 4 * maxAbs(A) + 16 * orthoDev(A, 3) * (orthoDev(A, 3) < 1e-4L);
	for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++)
		REQUIREM(fabsl(exact(qq).e[j][i].v - A.e[j][i].v) <= tol, "the inverse of the inverse is " + gen::s(qq));
}

LAW(associative, 1)
{
	typedef Mat3<Real> M;
	M a = anyMat3<Real>(c, 2), b = anyMat3<Real>(c, 2), d = anyMat3<Real>(c, 2);
	Vec3<Real> v = vec3<Real>(c, -4, 4);
	SHOWV(a); SHOWV(b); SHOWV(d); SHOWV(v);
	c.nontrivial(!a.isIdentity() && !b.isIdentity() && !d.isIdentity());
	NMat<3, Real> P = mul(mul(ref(a), ref(b)), ref(d));
	M l = (a * b) * d, r = a * (b * d);
	LD sc = (1 + maxAbs(exact(a))) * (1 + maxAbs(exact(b))) * (1 + maxAbs(exact(d)));
	// intermediate results may themselves count as the identity
	LD w = (a * b).isIdentity() || (b * d).isIdentity() ? 4e-5L : 0;
	NEARM(l, widen(P, 16 * Num<Real>::u() * sc + w * sc));
	NEARM(r, widen(P, 16 * Num<Real>::u() * sc + w * sc));
	NEAR3(a * (b * (d * v)), v3of(mul(exact(a), mul(exact(b), mul(exact(d), nv(v))))));
	// transposing reverses products
	NEARM((a * b).transposed(), mul(transposeOf(ref(b)), transposeOf(ref(a))));
	M t = a;
	t *= b;
	t *= d;
	NEARM(t, widen(P, 16 * Num<Real>::u() * sc + w * sc));
}

FINDING(mat3_invert_nearly_normal, "Mat3(1.005).invert() gives 1.005 instead of 1/1.005: within the 0.001 tolerance on squared errors it counts as orthonormal and is transposed")
{
	Mat3<double> m(Vec3<double>(1.005, 0, 0), Vec3<double>(0, 1.005, 0), Vec3<double>(0, 0, 1.005));
	m.invert();
	return std::fabs(m.x.x - 1 / 1.005) > 1e-6;
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	Mat3<Real> a, b; a.setIdentity(); b.setIdentity(); equality<Real>(c, a, b, { &a.x.x, &a.x.y, &a.x.z, &a.y.x, &a.y.y, &a.y.z, &a.z.x, &a.z.y, &a.z.z }, { &b.x.x, &b.x.y, &b.x.z, &b.y.x, &b.y.y, &b.y.z, &b.z.x, &b.z.y, &b.z.z });
}
