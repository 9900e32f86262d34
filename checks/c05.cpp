// C05: 2x2 matrices
#include "mats.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C05";
const char* pbt::RULE = "2x2 matrices obtained by a constructor (scalar, rotation, diagonal, orthogonal, normal, singular, general) and up to three further operations, "
	"with vectors and scalars; non-trivial: no operand is flagged identity and no operand is zero";

template <class R> static bool isZero(const Mat2<R>& m) { return m.x.x == 0 && m.x.y == 0 && m.y.x == 0 && m.y.y == 0; }

LAW(algebra, 2)
{
	typedef Mat2<Real> M;
	M a = anyMat2<Real>(c), b = anyMat2<Real>(c);
	Vec2<Real> v = vec2<Real>(c);
	Real k = real<Real>(c);
	SHOWV(a); SHOWV(b); SHOWV(v); SHOW(k);
	NMat<2, Real> A = exact(a), B = exact(b);
	c.nontrivial(!a.isIdentity() && !b.isIdentity() && !isZero(a) && !isZero(b));
	if (a.isIdentity() || b.isIdentity()) c.label("identity flag");
	if (a.isOrthonormal()) c.label("orthonormal flag");

	NEAR2(a * v, v2of(mul(A, nv(v))));
	{ Vec2<Real> d(7, 7); a.transform(d, v); NEAR2(d, v2of(mul(A, nv(v)))); }
	{ Vec2<Real> d = v; a.transform(d, d); NEAR2(d, v2of(mul(A, nv(v)))); }
	NEAR2(v * a, v2of(mul(transposeOf(A), nv(v))));
	{ Vec2<Real> d = v; REQUIRE(&(d *= a) == &d); NEAR2(d, v2of(mul(transposeOf(A), nv(v)))); }

	NMat<2, Real> P = mul(ref(a), ref(b));
	NEARM(a * b, P);
	{ M x = a; REQUIRE(&(x *= b) == &x); NEARM(x, P); }
	{ M x; M::multiply(x, a, b); NEARM(x, P); }
	{ M x = a; x *= x; NEARM(x, mul(ref(a), ref(a))); }
	NEARM(-a, scaleOf(A, Num<Real>(-1)));
	NEARM(a * k, scaleOf(A, Num<Real>(k)));
	{ M x = a; REQUIRE(&(x *= k) == &x); NEARM(x, scaleOf(A, Num<Real>(k))); }
	if (k != 0)
	{
		NMat<2, Real> Q;
		for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) Q.e[j][i] = A.e[j][i] / Num<Real>(k);
		NEARM(a / k, Q);
		M x = a; REQUIRE(&(x /= k) == &x); NEARM(x, Q);
	}
	NEARM(a.transposed(), transposeOf(A));
	{ M x = a; REQUIRE(&x.transpose() == &x); NEARM(x, transposeOf(A)); SAMEM(x.transpose(), a); }
	NEARM(a.cofactors(), cofactorsOf(A));
	NEARM(a.adjoint(), adjointOf(A));
	NEAR(a.determinant(), det(A));
	NEAR(a.trace(), A.e[0][0] + A.e[1][1]);
	{
		Num<Real> one(1), nx = A.e[0][0] * A.e[0][0] + A.e[0][1] * A.e[0][1] - one, ny = A.e[1][0] * A.e[1][0] + A.e[1][1] * A.e[1][1] - one,
			xy = A.e[0][0] * A.e[1][0] + A.e[0][1] * A.e[1][1], dx = A.e[0][0] - one, dy = A.e[1][1] - one;
		NEAR(a.normalError(), nx * nx + ny * ny);
		NEAR(a.orthogonalError(), xy * xy);
		NEAR(a.identityError(), dx * dx + A.e[0][1] * A.e[0][1] + A.e[1][0] * A.e[1][0] + dy * dy);
	}

	REQUIRE((a == b) == sameElems(a, b));
	REQUIRE((a != b) == !sameElems(a, b));
	REQUIRE(a == a && !(a != a));
	{ int i = int(c.draw(4)); M x = a; Real* p = x.data(); p[i] += Real(1) + fabs(p[i]); REQUIRE(x != a && !(x == a));
	  const Real* q = static_cast<const M&>(a).data(); REQUIRE(q[0] == a.x.x && q[1] == a.x.y && q[2] == a.y.x && q[3] == a.y.y); }
	{ M x; x.set(a); SAMEM(x, a); x = b; SAMEM(x, b); M y(a); SAMEM(y, a); }
	{
		Mat2<float> f = a.template cast<float>();
		REQUIRE(f.x.x == float(a.x.x) && f.x.y == float(a.x.y) && f.y.x == float(a.y.x) && f.y.y == float(a.y.y));
		Mat2<double> g = a.template cast<double>();
		REQUIRE(g.x.x == double(a.x.x) && g.x.y == double(a.x.y) && g.y.x == double(a.y.x) && g.y.y == double(a.y.y));
	}
}

LAW(inverse, 1)
{
	typedef Mat2<Real> M;
	M a = anyMat2<Real>(c);
	if (c.oneIn(6)) { Vec2<Real> u(grid<Real>(c), grid<Real>(c)); Real k = grid<Real>(c); a = M(u, u * k); }
	Real size = wholeSize<Real>(c);
	if (size != 1) a = M(a.x * size, a.y * size);
	SHOWV(a);
	M r = a.inversed();
	NMat<2, Real> A = exact(a);
	bool ints = true;
	for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++)
		if (!(A.e[j][i].v / size == rintl(A.e[j][i].v / size) && fabsl(A.e[j][i].v / size) < 1000)) ints = false;
	if (a.determinant() == 0 || (ints && det(A).v == 0))
	{
		c.label("singular");
		REQUIREM(isZero(r), "the inverse of a singular matrix is Zero");
		SAMEM(r, M::Zero);
		return;
	}
	Num<Real> d = det(A);
	if (!solidDet(A)) { c.label("ill-conditioned"); return; }
	c.nontrivial();
	NMat<2, Real> I = inverseOf(A);
	NEARM(r, I);
	// composing with the original on either side gives the identity
	NMat<2, Real> E = exact(r);
	LD slack = 32 * maxAbs(A) * maxAbs(I) * Num<Real>::u() * (1 + maxAbs(A) * maxAbs(A) / fabsl(d.v));
	NMat<2, Real> one = widen(NMat<2, Real>::identity(), slack);
	for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++)
	{
		REQUIRE(fabsl(mul(A, E).e[j][i].v - (i == j)) <= one.e[j][i].e);
		REQUIRE(fabsl(mul(E, A).e[j][i].v - (i == j)) <= one.e[j][i].e);
	}
}

LAW(constructors, 1)
{
	typedef Mat2<Real> M;
	Real k = real<Real>(c), g = angle<Real>(c), h = angle<Real>(c), w = unit01<Real>(c);
	Vec2<Real> x = vec2<Real>(c), y = vec2<Real>(c);
	SHOW(k); SHOW(g); SHOW(h); SHOW(w); SHOWV(x); SHOWV(y);
	c.nontrivial(k != 0 && g != 0);
	{ M m(k); REQUIRE(m.x.x == k && m.x.y == 0 && m.y.x == 0 && m.y.y == k); }
	{ M m(x, y); SAME2(m.x, x); SAME2(m.y, y); SAMEM(M::from(x, y), m); M n; REQUIRE(&n.set(x, y) == &n); SAMEM(n, m); }
	{ M m; REQUIRE(&m.setIdentity() == &m); SAMEM(m, M(Real(1))); SAMEM(M::One, m); SAMEM(M::Zero, M(Real(0))); }

	M m = M::from(g);
	Num<Real> s = nsin(Num<Real>(g)), q = ncos(Num<Real>(g));
	NMat<2, Real> Rg;
	Rg.e[0][0] = q; Rg.e[0][1] = s; Rg.e[1][0] = -s; Rg.e[1][1] = q;
	NEARM(m, Rg);
	{ M n; REQUIRE(&n.set(g) == &n); SAMEM(n, m); }
	LD u = 32 * Num<Real>::u();
	REQUIRE(fabsl(remainderl(LD(m.angle()) - LD(g), 2 * PIL)) <= u * (1 + fabsl(LD(g))));
	NEAR(m.determinant(), Num<Real>(1, 4 * Num<Real>::u()));

	// orthonormalising keeps the direction of the first axis
	if (x.x != 0 || x.y != 0)
	{
		M n(x, y);
		LD a = atan2l(x.y, x.x);
		REQUIRE(fabsl(LD(n.angle()) - a) <= u * 4);
		REQUIRE(&n.orthonormalise() == &n);
		REQUIRE(fabsl(n.x.x - cosl(a)) <= u && fabsl(n.x.y - sinl(a)) <= u && fabsl(n.y.x + sinl(a)) <= u && fabsl(n.y.y - cosl(a)) <= u);
	}

	// interpolating rotations turns the short way
	M p = M::from(h);
	LD pa = atan2l(m.x.y, m.x.x), d = remainderl(atan2l(p.x.y, p.x.x) - pa, 2 * PIL);
	if (fabsl(d) < PIL - 0.01L)
	{
		M r = M::fromSlerp(m, p, w);
		LD e = pa + d * w;
		REQUIREM(fabsl(r.x.x - cosl(e)) <= u && fabsl(r.x.y - sinl(e)) <= u && fabsl(r.y.x + sinl(e)) <= u && fabsl(r.y.y - cosl(e)) <= u, "slerp " + gen::s(r));
		M n; REQUIRE(&n.slerp(m, p, w) == &n); SAMEM(n, r);
		Real lim = c.oneIn(4) ? Real(4) : between<Real>(c, Real(0), Real(3));
		M t = M::fromSlerpMaxAngle(m, p, lim);
		LD turn = fabsl(d) < lim ? fabsl(d) : LD(lim);
		e = pa + (d < 0 ? -turn : turn);
		REQUIREM(fabsl(t.x.x - cosl(e)) <= u && fabsl(t.x.y - sinl(e)) <= u && fabsl(t.y.x + sinl(e)) <= u && fabsl(t.y.y - cosl(e)) <= u, "slerpMaxAngle " + gen::s(t));
		REQUIRE(&n.slerpMaxAngle(m, p, lim) == &n); SAMEM(n, t);
	}
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	Mat2<Real> a, b; a.setIdentity(); b.setIdentity(); equality<Real>(c, a, b, { &a.x.x, &a.x.y, &a.y.x, &a.y.y }, { &b.x.x, &b.x.y, &b.y.x, &b.y.y });
}
