// C09: cached classifications of matrices
#include "mats.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C09";
const char* pbt::RULE = "histories of up to eight public operations on 2x2, 3x3, 3x4 and 4x4 matrices started from every constructor (exact classes, nearly normal, nearly orthogonal and nearly identical "
	"elements included), classes judged after every step; non-trivial: the matrix claimed different classes at two points of the history, or claims some but not all of them at its end";

// u: rounding allowance per product
// sums of squared errors over the first n columns, as the library defines its tolerances
template <int N, class R> static LD normalErr(const NMat<N, R>& a, int n, int rows, LD u = 0)
{
	LD s = 0;
	for (int j = 0; j < n; j++)
	{
		LD l = -1, q = 1;
		for (int i = 0; i < rows; i++) { LD p = a.e[j][i].v * a.e[j][i].v; l += p; q += p; }
		l = std::max(LD(0), fabsl(l) - u * q);
		s += l * l;
	}
	return s;
}
template <int N, class R> static LD orthoErr(const NMat<N, R>& a, int n, int rows, LD u = 0)
{
	LD s = 0;
	for (int j = 0; j < n; j++) for (int k = j + 1; k < n; k++)
	{
		LD d = 0, q = 0;
		for (int i = 0; i < rows; i++) { LD p = a.e[j][i].v * a.e[k][i].v; d += p; q += fabsl(p); }
		d = std::max(LD(0), fabsl(d) - u * q);
		s += d * d;
	}
	return s;
}
// transposing a matrix may exchange up to a factor of three between the two errors
const LD TOL = 0.0031L;

template <class M, int N, class R> static void truthful(Case& c, const char* when, const M& m, const NMat<N, R>& a, int n, int rows)
{
	if (m.isNormal()) REQUIREM(normalErr(a, n, rows, 8 * Num<R>::u()) <= TOL, std::string(when) + ": claims to be normal: " + s(m));
	if (m.isOrthogonal()) REQUIREM(orthoErr(a, n < 3 ? n : 3, rows, 8 * Num<R>::u()) <= TOL, std::string(when) + ": claims to be orthogonal: " + s(m));
	REQUIRE(m.isOrthonormal() == (m.isNormal() && m.isOrthogonal()));
	REQUIREM(m.isInitialized(), when);
}
template <class R> static void check(Case& c, const char* when, const Mat2<R>& m)
{
	truthful(c, when, m, exact(m), 2, 2);
	if (m.isIdentity()) REQUIREM(idErr(exact(m)) <= ID_TOL, std::string(when) + ": claims to be the identity: " + s(m));
}
template <class R> static void check(Case& c, const char* when, const Mat3<R>& m)
{
	truthful(c, when, m, exact(m), 3, 3);
	if (m.isIdentity()) REQUIREM(idErr(exact(m)) <= ID_TOL, std::string(when) + ": claims to be the identity: " + s(m));
}
template <class R> static void check(Case& c, const char* when, const Mat34<R>& m)
{
	truthful(c, when, m, exact(m), 3, 3);
	check(c, when, m.rs);
	if (m.isIdentity()) REQUIREM(idErr(exact(m)) <= ID_TOL, std::string(when) + ": claims to be the identity: " + s(m));
	REQUIRE(m.isIdentity() == (m.rs.isIdentity() && m.t.x == 0 && m.t.y == 0 && m.t.z == 0));
}
template <class R> static void check(Case& c, const char* when, const Mat4<R>& m)
{
	if (m.isTrs())
	{
		REQUIREM(m.x.w == 0 && m.y.w == 0 && m.z.w == 0 && m.t.w == 1, std::string(when) + ": claims to be affine: " + s(m));
		truthful(c, when, m, exact(m), 3, 3);
	}
	else truthful(c, when, m, exact(m), 4, 4);
	if (m.isIdentity()) REQUIREM(idErr(exact(m)) <= ID_TOL, std::string(when) + ": claims to be the identity: " + s(m));
}

template <class M> static int classes(const M& m) { return m.isNormal() + 2 * m.isOrthogonal() + 4 * m.isIdentity(); }
template <class R> static int classes(const Mat4<R>& m) { return m.isNormal() + 2 * m.isOrthogonal() + 4 * m.isIdentity() + 8 * m.isTrs(); }

template <class R> static Mat2<R> fresh(const Mat2<R>& m) { return Mat2<R>(m.x, m.y); }
template <class R> static Mat3<R> fresh(const Mat3<R>& m) { return Mat3<R>(m.x, m.y, m.z); }
template <class R> static Mat34<R> fresh(const Mat34<R>& m) { return Mat34<R>(m.rs.x, m.rs.y, m.rs.z, m.t); }
template <class R> static Mat4<R> fresh(const Mat4<R>& m) { return Mat4<R>(m.x, m.y, m.z, m.t); }

// a deviation from an exact class, around the tolerances
template <class R> static R off(Case& c)
{
	switch (c.draw(4))
	{
	case 0: return R(0);
	case 1: { R m = mag<R>(c, -9, -4); return c.flip() ? -m : m; }       // around the 0.001 tolerance on squared errors
	case 2: { R m = mag<R>(c, -21, -15); return c.flip() ? -m : m; }     // around the 1e-10 tolerance
	default: { R m = mag<R>(c, -14, -9); return c.flip() ? -m : m; }
	}
}

// results do not depend on the cached classes
template <class R> static int linear(const Mat2<R>&) { return 2; }
template <class R> static int linear(const Mat3<R>&) { return 3; }
template <class R> static int linear(const Mat34<R>&) { return 3; }
template <class R> static int linear(const Mat4<R>&) { return 3; }

template <class M> static M invertOf(M m) { m.invert(); return m; }
template <class R> static Mat2<R> invertOf(const Mat2<R>& m) { return m.inversed(); }

template <class M> static void independent(Case& c, const M& m, const M& b)
{
	typedef typename M::Real R;
	M f = fresh(m), g = fresh(b);
	REQUIRE(f == m && g == b);
	auto P = mul(ref(m), ref(b));
	NEARM(m * b, P);
	NEARM(f * b, P);
	NEARM(m * g, P);
	NEARM(f * g, P);
	auto A = exact(m);
	if (nearOrthonormal(A, linear(m))) return;
	if (!solidDet(A)) return;
	auto I = inverseOf(A);
	if (!(maxAbs(I) < 1e12L)) return;
	LD dev = orthoDev(A, linear(m));
	if (dev <= 1e-5L) I = widen(I, 4 * dev * (1 + maxAbs(I)) * (1 + maxAbs(A)));
	M p = invertOf(m), q = invertOf(f);
	// an affine transform within tolerance of the identity may be left alone
	if (idErrOf(m) <= ID_TOL) I = widen(I, sqrtl(idErrOf(m)) * 2 * (1 + maxAbs(A)));
	NEARM(p, I);
	NEARM(q, I);
	check(c, "invert", p);
	check(c, "invert", q);
}

LAW(mat2, 1)
{
	typedef Mat2<Real> M;
	M m = baseMat2<Real>(c);
	if (c.oneIn(3))
	{
		Real g = angle<Real>(c);
		Vec2<Real> x(std::cos(g) + off<Real>(c), std::sin(g) + off<Real>(c)), y(-std::sin(g) + off<Real>(c), std::cos(g) + off<Real>(c));
		if (c.flip()) { x = Vec2<Real>(1 + off<Real>(c), off<Real>(c)); y = Vec2<Real>(off<Real>(c), 1 + off<Real>(c)); }
		m = M(x, y);
	}
	SHOWV(m);
	check(c, "start", m);
	int k = classes(m);
	int n = int(c.draw(7));
	for (int i = 0; i < n; i++)
	{
		M before = m;
		if (c.draw(10) == 9)
		{
			switch (c.draw(2))
			{
			case 0: m = m.inversed(); break;
			default: m = m.adjoint(); break;
			}
		}
		else stepMat2<Real>(c, m);
		if (!sane(m)) { m = before; continue; }
		c.show("step", gen::s(m));
		check(c, "step", m);
		check(c, "transposed", m.transposed());
		check(c, "scaled", m.scaled(factors2<Real>(c)));
		if (classes(m) != k) c.nontrivial();
		k = classes(m);
	}
	c.nontrivial(k != 0 && k != 7);
	if (m.isIdentity()) c.label("ends as the identity"); else if (m.isOrthonormal()) c.label("ends orthonormal"); else if (k) c.label("ends with one class");
	M b = baseMat2<Real>(c);
	independent(c, m, b);
	M z = m.cofactors();
	check(c, "cofactors", z);
	check(c, "cast", m.template cast<float>());
	check(c, "cast", m.template cast<double>());
}

template <class R> static Mat3<R> nearlyMat3(Case& c)
{
	Mat3<R> b;
	if (c.flip()) b = Mat3<R>::One; else b = Mat3<R>::from(unitQuat<R>(c));
	R e[9];
	for (int i = 0; i < 9; i++) e[i] = c.oneIn(3) ? off<R>(c) : R(0);
	return Mat3<R>(Vec3<R>(b.x.x + e[0], b.x.y + e[1], b.x.z + e[2]), Vec3<R>(b.y.x + e[3], b.y.y + e[4], b.y.z + e[5]),
		Vec3<R>(b.z.x + e[6], b.z.y + e[7], b.z.z + e[8]));
}

LAW(mat3, 2)
{
	typedef Mat3<Real> M;
	M m = c.oneIn(3) ? nearlyMat3<Real>(c) : baseMat3<Real>(c);
	SHOWV(m);
	check(c, "start", m);
	int k = classes(m);
	int n = int(c.draw(9));
	for (int i = 0; i < n; i++)
	{
		M before = m;
		if (c.draw(8) == 7)
		{
			switch (c.draw(9))
			{
			case 0: m.invert(); break;
			case 1: m = m.inversed(); break;
			case 2: m = m.adjoint(); break;
			case 3: m = m.cofactors(); break;
			case 4: m = m.rotatedPre(unitQuat<Real>(c)); break;
			case 5: m = m.rotatedPre(baseMat3<Real>(c)); break;
			case 6: m.rotatePre(baseMat3<Real>(c)); break;
			case 7: m = m.rotated(unit3<Real>(c), angle<Real>(c)); break;
			default: if (orthoDev(exact(m), 3) < 0.1L && det(exact(m)).v > 0) m.orthonormalise(); break;
			}
		}
		else stepMat3<Real>(c, m);
		if (!sane(m)) { m = before; continue; }
		c.show("step", gen::s(m));
		check(c, "step", m);
		check(c, "transposed", m.transposed());
		if (classes(m) != k) c.nontrivial();
		k = classes(m);
	}
	c.nontrivial(k != 0 && k != 7);
	if (m.isIdentity()) c.label("ends as the identity"); else if (m.isOrthonormal()) c.label("ends orthonormal"); else if (k) c.label("ends with one class");
	independent(c, m, c.oneIn(4) ? nearlyMat3<Real>(c) : baseMat3<Real>(c));
	check(c, "cast", m.template cast<float>());
	check(c, "cast", m.template cast<double>());
	check(c, "copy", M(m));
	{ M x; x.set(m); check(c, "set", x); REQUIRE(classes(x) == classes(m)); }
}

LAW(mat34, 1)
{
	typedef Mat34<Real> M;
	M m = c.oneIn(3) ? M(nearlyMat3<Real>(c), c.flip() ? Vec3<Real>::Zero : vec3<Real>(c, -6, 6)) : anyMat34<Real>(c, 0);
	if (c.oneIn(6)) m.setIdentity();
	SHOWV(m);
	check(c, "start", m);
	int k = classes(m);
	int n = int(c.draw(7));
	for (int i = 0; i < n; i++)
	{
		M before = m;
		switch (c.draw(19))
		{
		case 16: m.transformPre(anyMat34<Real>(c, 0)); break;
		case 17:
			// assigned anew
			switch (c.draw(10))
			{
			case 0: m.setIdentity(); break;
			case 1: if (c.flip()) m.set(baseMat3<Real>(c)); else m.set(baseMat3<Real>(c), vec3<Real>(c, -6, 6)); break;
			case 2: if (c.flip()) m.set(unitQuat<Real>(c)); else m.set(unitQuat<Real>(c), vec3<Real>(c, -6, 6)); break;
			case 3: { Vec3<Real> x, y, z; columns3<Real>(c, x, y, z); if (c.flip()) m.set(x, y, z); else m.set(x, y, z, vec3<Real>(c, -6, 6)); break; }
			case 4: { Coord e, a; frameCoords<Real>(c, e, a); m.set(e, vec3<Real>(c, -3, 3), a, vec3<Real>(c, -3, 3)); break; }
			case 5: if (c.flip()) m.set(unit3<Real>(c), angle<Real>(c)); else m.set(unit3<Real>(c), angle<Real>(c), vec3<Real>(c, -6, 6)); break;
			case 6: if (c.flip()) m.set(coord3<Real>(c), angle<Real>(c)); else m.set(coord3<Real>(c), angle<Real>(c), vec3<Real>(c, -6, 6)); break;
			case 7: { M a(Mat3<Real>::from(unitQuat<Real>(c)), vec3<Real>(c, -3, 3)), b(Mat3<Real>::from(unitQuat<Real>(c)), vec3<Real>(c, -3, 3)); m.slerp(a, b, unit01<Real>(c)); break; }
			case 8: { M a(Mat3<Real>::from(unitQuat<Real>(c)), vec3<Real>(c, -3, 3)), b(Mat3<Real>::from(unitQuat<Real>(c)), vec3<Real>(c, -3, 3)); m.slerpMaxAngle(a, b, Real(c.draw(4)) / 2); break; }
			default: m.set(anyMat34<Real>(c, 0)); break;
			}
			break;
		case 0: m.rotate(unitQuat<Real>(c)); break;
		case 1: { Coord a = coord3<Real>(c); m.rotate(a, angle<Real>(c)); break; }
		case 2: { Vec3<Real> a = unit3<Real>(c); m.rotatePre(a, angle<Real>(c)); break; }
		case 3: m.translate(vec3<Real>(c, -3, 3)); break;
		case 4: m.translatePre(vec3<Real>(c, -3, 3)); break;
		case 5: m.scale(factors3<Real>(c)); break;
		case 6: m.scalePre(factors3<Real>(c)); break;
		case 7: m.transform(baseMat3<Real>(c)); break;
		case 8: m.transformPre(baseMat3<Real>(c)); break;
		case 9: m *= anyMat34<Real>(c, 0); break;
		case 10: m = m * anyMat34<Real>(c, 0); break;
		case 11: m *= m; break;
		case 12: m = -m; break;
		case 13: m.transpose(); break;
		case 14: m.optimize(); break;
		case 15: m.invert(); break;
		default: { M d; M::multiply(d, m, before); m = d; }
		}
		if (!sane(m)) { m = before; continue; }
		c.show("step", gen::s(m));
		check(c, "step", m);
		if (classes(m) != k) c.nontrivial();
		k = classes(m);
	}
	c.nontrivial(k != 0 && k != 7);
	if (m.isIdentity()) c.label("ends as the identity"); else if (m.isOrthonormal()) c.label("ends orthonormal"); else if (k) c.label("ends with one class");
	independent(c, m, anyMat34<Real>(c, 0));
	check(c, "cast", m.template cast<float>());
	check(c, "cast", m.template cast<double>());
}

LAW(mat4, 2)
{
	typedef Mat4<Real> M;
	bool proj = c.flip();
	M m = baseMat4<Real>(c, proj);
	if (c.oneIn(4))
	{
		Mat3<Real> b = nearlyMat3<Real>(c);
		Vec4<Real> w(off<Real>(c), off<Real>(c), off<Real>(c), 1 + off<Real>(c));
		if (c.flip()) w = Vec4<Real>(0, 0, 0, 1);
		Vec3<Real> t = c.flip() ? Vec3<Real>(off<Real>(c), off<Real>(c), off<Real>(c)) : vec3<Real>(c, -6, 6);
		m = M(Vec4<Real>(b.x.x, b.x.y, b.x.z, w.x), Vec4<Real>(b.y.x, b.y.y, b.y.z, w.y), Vec4<Real>(b.z.x, b.z.y, b.z.z, w.z), Vec4<Real>(t.x, t.y, t.z, w.w));
	}
	SHOWV(m);
	check(c, "start", m);
	int k = classes(m);
	int n = int(c.draw(8));
	for (int i = 0; i < n; i++)
	{
		M before = m;
		if (c.draw(8) == 7)
		{
			switch (c.draw(9))
			{
			case 0: m.invert(); break;
			case 1: m = m.inversed(); break;
			case 2: m = m.scaled(factors3<Real>(c)); break;
			case 3: m = m.scaledPre(factors3<Real>(c)); break;
			case 4: m = m.transformedPre(baseMat4<Real>(c, proj)); break;
			case 5: m = m.transformed(baseMat4<Real>(c, proj)); break;
			case 6: m.transform(before); break;
			case 7: m = m / nonzero<Real>(c, -2, 2); break;
			default: { M d; M::multiply(d, m, before); m = d; }
			}
		}
		else stepMat4<Real>(c, m, proj);
		if (!sane(m)) { m = before; continue; }
		c.show("step", gen::s(m));
		check(c, "step", m);
		check(c, "transposed", m.transposed());
		if (classes(m) != k) c.nontrivial();
		k = classes(m);
	}
	c.nontrivial(k != 0 && k != 15);
	if (m.isIdentity()) c.label("ends as the identity"); else if (m.isOrthonormal()) c.label("ends orthonormal"); else if (k & 7) c.label("ends with one class");
	if (m.isTrs()) c.label("ends affine");
	independent(c, m, baseMat4<Real>(c, proj));
	check(c, "cast", m.template cast<float>());
	check(c, "cast", m.template cast<double>());
	{ M x; x.set(m); REQUIRE(classes(x) == classes(m)); }
}

// recomputing claims a class exactly when the elements are within the tolerances
template <class M, int N, class R> static void recomputed(Case& c, const M& m, const NMat<N, R>& a, int n, int rows, LD tn, LD to, LD ti)
{
	LD en = normalErr(a, n, rows), eo = orthoErr(a, n < 3 ? n : 3, rows), ei = idErr(a);
	LD sl = 64 * Num<R>::u(), big = (1 + maxAbs(a)) * (1 + maxAbs(a));
	big *= big;
	// leave out the rounding band of each decision
	bool bn = fabsl(en - tn) <= sl * (big + tn), bo = fabsl(eo - to) <= sl * (big + to), bi = fabsl(ei - ti) <= sl * (ei + ti + sl);
	if (!bn) REQUIREM(m.isNormal() == (en < tn), "squared normal error " + pbt::str(en) + " with tolerance " + pbt::str(tn));
	if (!bo) REQUIREM(m.isOrthogonal() == (eo < to), "squared orthogonal error " + pbt::str(eo) + " with tolerance " + pbt::str(to));
	if (!bn && !bo && !bi) REQUIREM(m.isIdentity() == (en < tn && eo < to && ei < ti), "squared identity error " + pbt::str(ei) + " with tolerance " + pbt::str(ti));
	REQUIRE(m.isOrthonormal() == (m.isNormal() && m.isOrthogonal()));
}

LAW(optimize, 2)
{
	MatrixTolerance<Real> tol;
	tol.normal = c.flip() ? mag<Real>(c, -20, 2) : mag<Real>(c, -12, -8);
	tol.orthogonal = c.flip() ? mag<Real>(c, -20, 2) : mag<Real>(c, -12, -8);
	tol.identity = c.flip() ? mag<Real>(c, -20, 2) : mag<Real>(c, -36, -30);
	bool def = c.flip();
	LD tn = def ? 0.001L : LD(tol.normal), to = def ? 0.001L : LD(tol.orthogonal), ti = def ? 1e-10L : LD(tol.identity);
	if (def) c.label("default tolerance"); else c.label("given tolerance");
	Mat3<Real> b = c.oneIn(3) ? baseMat3<Real>(c) : nearlyMat3<Real>(c);
	SHOWV(b); c.show("default", def); c.show("normal", tol.normal); c.show("orthogonal", tol.orthogonal); c.show("identity", tol.identity);
	bool w[3] = {c.flip(), c.flip(), c.flip()};
	{
		Mat2<Real> m = c.flip() ? Mat2<Real>(Real(1)) : Mat2<Real>(Real(3));
		m.x = Vec2<Real>(b.x.x, b.x.y); m.y = Vec2<Real>(b.y.x, b.y.y);
		REQUIRE(&(def ? m.optimize() : m.optimize(&tol)) == &m);
		recomputed(c, m, exact(m), 2, 2, tn, to, ti);
		if (def) { Mat2<Real> f(m.x, m.y); recomputed(c, f, exact(f), 2, 2, tn, to, ti); }
	}
	{
		Mat3<Real> m = w[0] ? Mat3<Real>(Real(1)) : Mat3<Real>(Real(3));
		m.x = b.x; m.y = b.y; m.z = b.z;
		REQUIRE(&(def ? m.optimize() : m.optimize(&tol)) == &m);
		recomputed(c, m, exact(m), 3, 3, tn, to, ti);
		c.nontrivial(!m.isOrthonormal() || !m.isIdentity());
		if (def) { Mat3<Real> f; f.set(m.x, m.y, m.z); recomputed(c, f, exact(f), 3, 3, tn, to, ti); }
	}
	{
		Mat34<Real> m = w[1] ? Mat34<Real>(Real(1)) : Mat34<Real>(Real(3));
		m.rs.x = b.x; m.rs.y = b.y; m.rs.z = b.z;
		REQUIRE(&(def ? m.optimize() : m.optimize(&tol)) == &m);
		recomputed(c, m.rs, exact(m.rs), 3, 3, tn, to, ti);
		REQUIRE(classes(m) == classes(m.rs));
	}
	{
		Mat4<Real> m = w[2] ? Mat4<Real>(Real(1)) : Mat4<Real>(Real(3));
		Vec4<Real> r(0, 0, 0, 1);
		if (c.flip()) r = Vec4<Real>(off<Real>(c), off<Real>(c), off<Real>(c), 1 + off<Real>(c));
		Vec3<Real> t(off<Real>(c), off<Real>(c), off<Real>(c));
		if (c.flip()) t = vec3<Real>(c, -4, 4);
		m.x = Vec4<Real>(b.x.x, b.x.y, b.x.z, r.x); m.y = Vec4<Real>(b.y.x, b.y.y, b.y.z, r.y); m.z = Vec4<Real>(b.z.x, b.z.y, b.z.z, r.z);
		m.t = Vec4<Real>(t.x, t.y, t.z, r.w);
		REQUIRE(&(def ? m.optimize() : m.optimize(&tol)) == &m);
		bool trs = r.x == 0 && r.y == 0 && r.z == 0 && r.w == 1;
		REQUIRE(m.isTrs() == trs);
		recomputed(c, m, exact(m), trs ? 3 : 4, trs ? 3 : 4, tn, to, ti);
	}
}
