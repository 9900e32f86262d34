// Reference matrices and generators of matrices through histories of operations.
#pragma once
#include "gen.h"

namespace gen {

// N x N reference matrix, e[column][row]
template <int N, class R> struct NMat
{
	Num<R> e[N][N];
	static NMat identity()
	{
		NMat r;
		for (int i = 0; i < N; i++) r.e[i][i] = Num<R>(1);
		return r;
	}
};

template <int N, class R> NMat<N, R> mul(const NMat<N, R>& a, const NMat<N, R>& b)
{
	NMat<N, R> r;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++)
	{
		Num<R> s = a.e[0][i] * b.e[j][0];
		for (int k = 1; k < N; k++) s = s + a.e[k][i] * b.e[j][k];
		r.e[j][i] = s;
	}
	return r;
}
template <int N, class R> NMat<N, R> transposeOf(const NMat<N, R>& a)
{
	NMat<N, R> r;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) r.e[j][i] = a.e[i][j];
	return r;
}
template <int N, class R> NMat<N, R> scaleOf(const NMat<N, R>& a, Num<R> k)
{
	NMat<N, R> r;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) r.e[j][i] = a.e[j][i] * k;
	return r;
}

// determinant of the minor without column dc and row dr
template <int N, class R> struct Det
{
	static Num<R> of(const NMat<N, R>& a)
	{
		Num<R> s;
		for (int j = 0; j < N; j++)
		{
			Num<R> t = a.e[j][0] * minor(a, j, 0);
			s = (j & 1) ? s - t : s + t;
		}
		return s;
	}
	static Num<R> minor(const NMat<N, R>& a, int dc, int dr)
	{
		NMat<N - 1, R> m;
		for (int j = 0, jj = 0; j < N; j++)
		{
			if (j == dc) continue;
			for (int i = 0, ii = 0; i < N; i++)
			{
				if (i == dr) continue;
				m.e[jj][ii++] = a.e[j][i];
			}
			jj++;
		}
		return Det<N - 1, R>::of(m);
	}
};
template <class R> struct Det<1, R> { static Num<R> of(const NMat<1, R>& a) { return a.e[0][0]; } };

template <int N, class R> Num<R> det(const NMat<N, R>& a) { return Det<N, R>::of(a); }
// cof.e[j][i] = cofactor of element (column j, row i)
template <int N, class R> NMat<N, R> cofactorsOf(const NMat<N, R>& a)
{
	NMat<N, R> r;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++)
	{
		Num<R> m = Det<N, R>::minor(a, j, i);
		r.e[j][i] = ((i + j) & 1) ? -m : m;
	}
	return r;
}
template <int N, class R> NMat<N, R> adjointOf(const NMat<N, R>& a) { return transposeOf(cofactorsOf(a)); }
template <int N, class R> NMat<N, R> inverseOf(const NMat<N, R>& a)
{
	NMat<N, R> ad = adjointOf(a);
	Num<R> d = det(a);
	NMat<N, R> r;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) r.e[j][i] = ad.e[j][i] / d;
	return r;
}

template <int N, class R> LD maxAbs(const NMat<N, R>& a)
{
	LD m = 0;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) { LD v = fabsl(a.e[j][i].v); if (!(v <= m)) m = v; }
	return m;
}
template <int N, class R> NMat<N, R> widen(NMat<N, R> a, LD d)
{
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) a.e[j][i].e += d;
	return a;
}

// ---- elements of the library's matrices -------------------------------------

template <class R> void elems(const Mat2<R>& m, R (&e)[2][2])
{ e[0][0] = m.x.x; e[0][1] = m.x.y; e[1][0] = m.y.x; e[1][1] = m.y.y; }
template <class R> void elems(const Mat3<R>& m, R (&e)[3][3])
{
	const Vec3<R>* v[3] = {&m.x, &m.y, &m.z};
	for (int j = 0; j < 3; j++) { e[j][0] = v[j]->x; e[j][1] = v[j]->y; e[j][2] = v[j]->z; }
}
template <class R> void elems(const Mat4<R>& m, R (&e)[4][4])
{
	const Vec4<R>* v[4] = {&m.x, &m.y, &m.z, &m.t};
	for (int j = 0; j < 4; j++) { e[j][0] = v[j]->x; e[j][1] = v[j]->y; e[j][2] = v[j]->z; e[j][3] = v[j]->w; }
}
// a 3x4 transform as a 4x4 one
template <class R> void elems(const Mat34<R>& m, R (&e)[4][4])
{
	const Vec3<R>* v[4] = {&m.rs.x, &m.rs.y, &m.rs.z, &m.t};
	for (int j = 0; j < 4; j++) { e[j][0] = v[j]->x; e[j][1] = v[j]->y; e[j][2] = v[j]->z; e[j][3] = R(j == 3); }
}
template <class M> struct Dim;
template <class R> struct Dim<Mat2<R>> { enum { N = 2 }; };
template <class R> struct Dim<Mat3<R>> { enum { N = 3 }; };
template <class R> struct Dim<Mat34<R>> { enum { N = 4 }; };
template <class R> struct Dim<Mat4<R>> { enum { N = 4 }; };

template <class M> NMat<Dim<M>::N, typename M::Real> exact(const M& m)
{
	const int N = Dim<M>::N;
	typedef typename M::Real R;
	R e[N][N];
	elems(m, e);
	NMat<N, R> r;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) r.e[j][i] = Num<R>(e[j][i]);
	return r;
}

// sum of squared differences from the identity
template <int N, class R> LD idErr(const NMat<N, R>& a)
{
	LD s = 0;
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) { LD d = a.e[j][i].v - (i == j); s += d * d; }
	return s;
}
const LD ID_TOL = 1.01e-10L;

template <class R> bool claimsIdentity(const Mat34<R>& m) { return m.rs.isIdentity(); }
template <class M> bool claimsIdentity(const M& m) { return m.isIdentity(); }
// only the linear part of a 3x4 transform is classified
template <class R> LD idErrOf(const Mat34<R>& m) { return idErr(exact(m.rs)); }
template <class M> LD idErrOf(const M& m) { return idErr(exact(m)); }

// Reference operand. A matrix within the (tight) identity tolerance may be
// used as the identity: its deviation counts as operand error. A matrix that
// is flagged identity without being one gets no such allowance.
template <class M> NMat<Dim<M>::N, typename M::Real> ref(const M& m)
{
	const int N = Dim<M>::N;
	NMat<N, typename M::Real> r = exact(m);
	if (claimsIdentity(m) && idErrOf(m) <= ID_TOL)
		for (int j = 0; j < N; j++) for (int i = 0; i < N; i++)
			if (!(N == 4 && j == 3 && std::is_same<M, Mat34<typename M::Real>>::value))
				r.e[j][i].e += fabsl(r.e[j][i].v - (i == j));
	return r;
}

// largest deviation of the first n columns and rows from orthonormality
template <int N, class R> LD orthoDev(const NMat<N, R>& a, int n)
{
	LD m = 0;
	for (int j = 0; j < n; j++) for (int k = j; k < n; k++)
	{
		LD s = 0;
		for (int i = 0; i < n; i++) s += a.e[j][i].v * a.e[k][i].v;
		s = fabsl(s - (j == k));
		if (!(s <= m)) m = s;
	}
	return m;
}

// the determinant is far enough from underflow for its products to keep their digits
template <int N, class R> bool solidDet(const NMat<N, R>& a)
{
	Num<R> d = det(a);
	return fabsl(d.v) > 64 * d.e && fabsl(d.v) > 1e6L * LD(std::numeric_limits<R>::min()) && maxAbs(a) < (sizeof(R) == 4 ? 1e6L : 1e30L);
}

// a size for a whole matrix: its inverse is the inverse at that size
template <class R> R wholeSize(Case& c) { return c.oneIn(5) ? R(std::ldexp(1.0, c.range(sizeof(R) == 4 || c.flip() ? -18 : -60, 18))) : R(1); }

// Inverse of m as the library may compute it; false if the comparison is to be
// skipped (ill-conditioned, or in the band where m counts as orthonormal).
template <int N, class R> bool refInverse(const NMat<N, R>& a, int linear, NMat<N, R>& r)
{
	LD dev = orthoDev(a, linear);
	if (dev > 1e-5L && dev < 0.08L) return false;
	if (!solidDet(a)) return false;
	r = inverseOf(a);
	if (!(maxAbs(r) < (sizeof(R) == 4 ? 1e12L : 1e30L))) return false;
	if (dev <= 1e-5L) r = widen(r, 4 * dev * (1 + maxAbs(r)));
	return true;
}

// the linear part of an operand is within the orthonormality tolerance without being orthonormal
template <int N, class R> bool nearOrthonormal(const NMat<N, R>& a, int linear)
{ LD dev = orthoDev(a, linear); return dev > 1e-5L && dev < 0.08L; }

template <int N, class R> std::string s(const NMat<N, R>& m)
{
	std::string o = "[";
	for (int j = 0; j < N; j++)
	{
		o += j ? "; " : "";
		for (int i = 0; i < N; i++) o += (i ? ", " : "") + pbt::str(m.e[j][i].v);
	}
	return o + "]";
}
template <class R> std::string s(const Mat2<R>& m) { return s(exact(m)); }
template <class R> std::string s(const Mat3<R>& m) { return s(exact(m)); }
template <class R> std::string s(const Mat4<R>& m) { return s(exact(m)); }
template <class R> std::string s(const Mat34<R>& m) { return s(exact(m)); }

template <class M> void nearM(Case& c, const char* what, int line, const M& m, const NMat<Dim<M>::N, typename M::Real>& r, LD K)
{
	const int N = Dim<M>::N;
	typedef typename M::Real R;
	R e[N][N];
	elems(m, e);
	try
	{
		for (int j = 0; j < N; j++) for (int i = 0; i < N; i++)
			pbt::near_<R>(c, "element", line, e[j][i], r.e[j][i], K);
	}
	catch (pbt::Fail& f)
	{
		f.msg = std::string(what) + " = " + s(m) + ", expected " + s(r) + ": " + f.msg;
		throw;
	}
}
#define NEARM(ACT, REF) gen::nearM(c, #ACT, __LINE__, (ACT), (REF), pbt::K_DEFAULT)
#define NEARMK(ACT, REF, K) gen::nearM(c, #ACT, __LINE__, (ACT), (REF), (K))

template <class M> bool sameElems(const M& a, const M& b)
{
	const int N = Dim<M>::N;
	typename M::Real e[N][N], f[N][N];
	elems(a, e);
	elems(b, f);
	for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) if (!(e[j][i] == f[j][i])) return false;
	return true;
}
#define SAMEM(A, B) do { const auto& a_ = (A); const auto& b_ = (B); c.nCompared++; if (!gen::sameElems(a_, b_)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + gen::s(a_) + " differs from " #B " = " + gen::s(b_)); } while (0)

// reference vector
template <int N, class R> struct NVec { Num<R> v[N]; };
template <int N, class R> NVec<N, R> mul(const NMat<N, R>& a, const NVec<N, R>& u)
{
	NVec<N, R> r;
	for (int i = 0; i < N; i++)
	{
		Num<R> s = a.e[0][i] * u.v[0];
		for (int k = 1; k < N; k++) s = s + a.e[k][i] * u.v[k];
		r.v[i] = s;
	}
	return r;
}
template <class R> NVec<2, R> nv(const Vec2<R>& u) { NVec<2, R> r; r.v[0] = u.x; r.v[1] = u.y; return r; }
template <class R> NVec<3, R> nv(const Vec3<R>& u) { NVec<3, R> r; r.v[0] = u.x; r.v[1] = u.y; r.v[2] = u.z; return r; }
template <class R> NVec<4, R> nv(const Vec4<R>& u) { NVec<4, R> r; r.v[0] = u.x; r.v[1] = u.y; r.v[2] = u.z; r.v[3] = u.w; return r; }
template <class R> NVec<4, R> nv(const Vec3<R>& u, int w) { NVec<4, R> r; r.v[0] = u.x; r.v[1] = u.y; r.v[2] = u.z; r.v[3] = Num<R>(w); return r; }
template <class R> V2<R> v2of(const NVec<2, R>& a) { return V2<R>(a.v[0], a.v[1]); }
template <class R> V3<R> v3of(const NVec<3, R>& a) { return V3<R>(a.v[0], a.v[1], a.v[2]); }
template <class R> V3<R> v3of(const NVec<4, R>& a) { return V3<R>(a.v[0], a.v[1], a.v[2]); }
template <class R> V4<R> v4of(const NVec<4, R>& a) { return V4<R>(a.v[0], a.v[1], a.v[2], a.v[3]); }

// ---- elementary reference maps -------------------------------------------------

// rotation about a coordinate axis, from the angle as the library sees it
template <class R> NMat<3, R> nrot(Coord axis, R angle)
{
	NMat<3, R> r = NMat<3, R>::identity();
	Num<R> s = nsin(Num<R>(angle)), k = ncos(Num<R>(angle));
	int a = axis == Coord::X ? 1 : axis == Coord::Y ? 2 : 0, b = (a + 1) % 3;   // a -> b
	r.e[a][a] = k; r.e[a][b] = s; r.e[b][a] = -s; r.e[b][b] = k;
	return r;
}
// rotation about a (normalised) axis
template <class R> NMat<3, R> nrot(const Vec3<R>& axis, R angle)
{
	LD l = len(axis.x, axis.y, axis.z);
	Num<R> s = nsin(Num<R>(angle)), k = ncos(Num<R>(angle)), t = Num<R>(1) - k;
	Num<R> v[3];
	v[0] = Num<R>(axis.x / l, 4 * Num<R>::u()); v[1] = Num<R>(axis.y / l, 4 * Num<R>::u()); v[2] = Num<R>(axis.z / l, 4 * Num<R>::u());
	NMat<3, R> r;
	for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++)
	{
		r.e[j][i] = v[j] * v[i] * t;
		if (i == j) r.e[j][i] = r.e[j][i] + k;
		else if (i == (j + 1) % 3) r.e[j][i] = r.e[j][i] + v[(j + 2) % 3] * s;
		else r.e[j][i] = r.e[j][i] - v[(j + 1) % 3] * s;
	}
	return r;
}
// rotation of a unit quaternion
template <class R> NMat<3, R> nrot(const Quat<R>& q)
{
	Num<R> x(q.x), y(q.y), z(q.z), w(q.w), two(2), one(1);
	NMat<3, R> r;
	r.e[0][0] = one - two * (y * y + z * z); r.e[0][1] = two * (x * y + w * z); r.e[0][2] = two * (z * x - w * y);
	r.e[1][0] = two * (x * y - w * z); r.e[1][1] = one - two * (x * x + z * z); r.e[1][2] = two * (y * z + w * x);
	r.e[2][0] = two * (z * x + w * y); r.e[2][1] = two * (y * z - w * x); r.e[2][2] = one - two * (x * x + y * y);
	return r;
}
// the library uses a matrix built from a rotation as the identity when it is that close to it
template <class R> NMat<3, R> maybeIdentity(NMat<3, R> r)
{
	if (idErr(r) <= ID_TOL * 1.01L)
		for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) r.e[j][i].e += fabsl(r.e[j][i].v - (i == j));
	return r;
}
template <class R> NMat<4, R> affine(const NMat<3, R>& m, V3<R> t = V3<R>())
{
	NMat<4, R> r = NMat<4, R>::identity();
	for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) r.e[j][i] = m.e[j][i];
	r.e[3][0] = t.x; r.e[3][1] = t.y; r.e[3][2] = t.z;
	return r;
}
template <int N, class R> NMat<N, R> ndiag(const Vec3<R>& k)
{
	NMat<N, R> r = NMat<N, R>::identity();
	r.e[0][0] = k.x; r.e[1][1] = k.y; r.e[2][2] = k.z;
	return r;
}

// ---- generators ------------------------------------------------------------------

template <class R> Quat<R> unitQuat(Case& c)
{
	LD q[4];
	switch (c.draw(5))
	{
	case 0: { int i = int(c.draw(4)); for (int k = 0; k < 4; k++) q[k] = k == i; break; }
	case 1: // about an axis by an angle
	{
		Vec3<R> a = unit3<R>(c);
		LD h = LD(angle<R>(c)) / 2;
		q[0] = a.x * sinl(h); q[1] = a.y * sinl(h); q[2] = a.z * sinl(h); q[3] = cosl(h);
		break;
	}
	case 2: { for (int k = 0; k < 4; k++) q[k] = c.flip() ? 0.5L : -0.5L; break; }
	default:
		for (int k = 0; k < 4; k++) q[k] = LD(between<R>(c, R(-1), R(1)));
	}
	LD l = sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
	if (!(l > 0.01L)) { q[0] = q[1] = q[2] = 0; q[3] = 1; l = 1; }
	int sg = c.oneIn(3) ? -1 : 1;
	Quat<R> r;
	r.x = R(sg * q[0] / l); r.y = R(sg * q[1] / l); r.z = R(sg * q[2] / l); r.w = R(sg * q[3] / l);
	return r;
}

// columns of a general 3x3 linear map of a chosen character
template <class R> void columns3(Case& c, Vec3<R>& x, Vec3<R>& y, Vec3<R>& z)
{
	switch (c.draw(6))
	{
	case 0: // signed permutation
	{
		static const int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
		const int* q = p[c.draw(6)];
		R e[3][3] = {};
		for (int j = 0; j < 3; j++) e[j][q[j]] = c.flip() ? R(-1) : R(1);
		x = Vec3<R>(e[0][0], e[0][1], e[0][2]); y = Vec3<R>(e[1][0], e[1][1], e[1][2]); z = Vec3<R>(e[2][0], e[2][1], e[2][2]);
		break;
	}
	case 1: // diagonal
		x = Vec3<R>(nonzero<R>(c, -3, 3), R(0), R(0)); y = Vec3<R>(R(0), nonzero<R>(c, -3, 3), R(0)); z = Vec3<R>(R(0), R(0), nonzero<R>(c, -3, 3));
		break;
	case 2: // orthogonal columns that are not normal, or normal ones that are not orthogonal
		if (c.flip())
		{
			R a = R(1 + int(c.draw(4))), b = R(1 + int(c.draw(4)));
			x = Vec3<R>(a, b, R(0)); y = Vec3<R>(-b * 2, a * 2, R(0)); z = Vec3<R>(R(0), R(0), R(1 + int(c.draw(3))));
		}
		else { x = unit3<R>(c); y = unit3<R>(c); z = unit3<R>(c); }
		break;
	case 3: // singular
		x = vec3<R>(c, -3, 3); y = vec3<R>(c, -3, 3); z = c.flip() ? x : Vec3<R>(R(0), R(0), R(0));
		break;
	default:
		x = vec3<R>(c, -3, 3); y = vec3<R>(c, -3, 3); z = vec3<R>(c, -3, 3);
	}
}

// factors along the axes: those that keep sizes (mirrors) or volume, equal ones, and any
template <class R> Vec3<R> factors3(Case& c)
{
	Vec3<R> k;
	switch (c.draw(6))
	{
	case 5: k = Vec3<R>(R(1), R(1), R(1)); break;
	case 4: k = Vec3<R>(c.flip() ? R(-1) : R(1), c.flip() ? R(-1) : R(1), c.flip() ? R(-1) : R(1)); break;
	case 3:
	{
		R q = R(c.flip() ? 2 : 0.5);
		switch (c.draw(4))
		{
		case 0: k = Vec3<R>(q, R(1) / q, R(1)); break;
		case 1: k = Vec3<R>(R(1), q, R(1) / q); break;
		case 2: k = Vec3<R>(q, R(1), R(1)); break;
		default: k = Vec3<R>(R(1), R(1), q); break;
		}
		break;
	}
	case 2: k.x = k.y = k.z = nonzero<R>(c, -2, 2); break;
	default: k.x = nonzero<R>(c, -2, 2); k.y = nonzero<R>(c, -2, 2); k.z = nonzero<R>(c, -2, 2); break;
	}
	return k;
}
template <class R> Vec2<R> factors2(Case& c)
{
	Vec3<R> k = factors3<R>(c);
	return Vec2<R>(k.x, k.y);
}

template <class R> Mat3<R> baseMat3(Case& c)
{
	Mat3<R> m;
	switch (c.draw(9))
	{
	case 0: { static const int k[] = {1, 0, -1, 2}; return Mat3<R>(R(k[c.draw(4)])); }
	case 1: return m.setIdentity();
	case 2: { Coord a = coord3<R>(c); return Mat3<R>::from(a, angle<R>(c)); }
	case 3: { Vec3<R> a = unit3<R>(c); return Mat3<R>::from(a, angle<R>(c)); }
	case 4: return Mat3<R>::from(unitQuat<R>(c));
	case 5: return c.flip() ? Mat3<R>::One : Mat3<R>::Zero;
	default: { Vec3<R> x, y, z; columns3<R>(c, x, y, z); return c.flip() ? Mat3<R>(x, y, z) : Mat3<R>::from(x, y, z); }
	}
}

// one history step; kept unverified here, the checks verify each kind of step themselves
template <class R> void frameCoords(Case& c, Coord& e, Coord& a)
{
	static const Coord k[] = {Coord::X, Coord::Y, Coord::Z};
	int i = int(c.draw(3)); e = k[i]; a = k[(i + 1 + int(c.draw(2))) % 3];
}
// whatever the matrix was, it is assigned anew
template <class R> void resetMat3(Case& c, Mat3<R>& m)
{
	switch (c.draw(9))
	{
	case 0: m.setIdentity(); break;
	case 1: m.set(unitQuat<R>(c)); break;
	case 2: { Vec3<R> x, y, z; columns3<R>(c, x, y, z); m.set(x, y, z); break; }
	case 3: { Coord e, a; frameCoords<R>(c, e, a); m.set(e, vec3<R>(c, -3, 3), a, vec3<R>(c, -3, 3)); break; }
	case 4: m.set(unit3<R>(c), angle<R>(c)); break;
	case 5: m.set(coord3<R>(c), angle<R>(c)); break;
	case 6: { Mat3<R> a = Mat3<R>::from(unitQuat<R>(c)), b = Mat3<R>::from(unitQuat<R>(c)); m.slerp(a, b, unit01<R>(c)); break; }
	case 7: { Mat3<R> a = Mat3<R>::from(unitQuat<R>(c)), b = Mat3<R>::from(unitQuat<R>(c)); m.slerpMaxAngle(a, b, R(c.draw(4)) / 2); break; }
	default: m.set(baseMat3<R>(c)); break;
	}
}
template <class R> void stepMat3(Case& c, Mat3<R>& m)
{
	switch (c.draw(24))
	{
	case 19: m /= nonzero<R>(c, -2, 2); break;
	case 20: m = m * nonzero<R>(c, -2, 2); break;
	case 21: m /= R(c.flip() ? 1 : -1); break;
	case 22: resetMat3<R>(c, m); break;
	case 0: { Coord a = coord3<R>(c); m.rotate(a, angle<R>(c)); break; }
	case 1: { Coord a = coord3<R>(c); m.rotatePre(a, angle<R>(c)); break; }
	case 2: { Coord a = coord3<R>(c); m = m.rotated(a, angle<R>(c)); break; }
	case 3: { Coord a = coord3<R>(c); m = m.rotatedPre(a, angle<R>(c)); break; }
	case 4: { Vec3<R> a = unit3<R>(c); m.rotate(a, angle<R>(c)); break; }
	case 5: { Vec3<R> a = unit3<R>(c); m.rotatePre(a, angle<R>(c)); break; }
	case 6: m.rotate(unitQuat<R>(c)); break;
	case 7: m.transpose(); break;
	case 8: m = m.transposed(); break;
	case 9: m.scale(factors3<R>(c)); break;
	case 10: m = m.scaled(factors3<R>(c)); break;
	case 11: m *= baseMat3<R>(c); break;
	case 12: m = m * baseMat3<R>(c); break;
	case 13: m *= nonzero<R>(c, -2, 2); break;
	case 14: m = m / nonzero<R>(c, -2, 2); break;
	case 15: m = -m; break;
	case 16: m.optimize(); break;
	case 17: m *= m; break;
	case 18: m.rotate(baseMat3<R>(c)); break;
	default: { Mat3<R> b = baseMat3<R>(c); Mat3<R> d; Mat3<R>::multiply(d, b, m); m = d; }
	}
}

template <class M> bool sane(const M& m)
{
	LD a = maxAbs(exact(m));
	return a < 1e4L;
}

template <class R> Mat3<R> anyMat3(Case& c, int maxSteps = 3)
{
	Mat3<R> m = baseMat3<R>(c);
	int n = int(c.draw(uint64_t(maxSteps) + 1));
	for (int i = 0; i < n; i++)
	{
		Mat3<R> k = m;
		stepMat3<R>(c, m);
		if (!sane(m)) m = k;
	}
	return m;
}

template <class R> Mat34<R> anyMat34(Case& c, int maxSteps = 2)
{
	Mat3<R> rs = anyMat3<R>(c, maxSteps);
	if (c.oneIn(4)) return Mat34<R>(rs);
	Vec3<R> t = vec3<R>(c, -6, 6);
	switch (c.draw(3))
	{
	case 0: return Mat34<R>(rs, t);
	case 1: return Mat34<R>(rs.x, rs.y, rs.z, t);
	default: { Mat34<R> m; m.set(rs, t); return m; }
	}
}

// projective: may have a general fourth row
template <class R> Mat4<R> baseMat4(Case& c, bool projective)
{
	switch (c.draw(8))
	{
	case 0: { static const int k[] = {1, 0, -1, 2}; return Mat4<R>(R(k[c.draw(4)])); }
	case 1: { Coord a = coord3<R>(c); return Mat4<R>::from(a, angle<R>(c)); }
	case 2: { Vec3<R> a = unit3<R>(c); return Mat4<R>::from(a, angle<R>(c)); }
	case 3: { Quat<R> q = unitQuat<R>(c); return Mat4<R>::from(q, vec3<R>(c, -6, 6)); }
	case 4: { Mat4<R> m; return c.flip() ? m.setIdentity() : Mat4<R>::One; }
	default: break;
	}
	Vec3<R> x, y, z;
	columns3<R>(c, x, y, z);
	Vec3<R> t = vec3<R>(c, -6, 6);
	if (!projective || c.flip()) return c.flip() ? Mat4<R>(x, y, z, t) : Mat4<R>::from(x, y, z, t);
	if (c.oneIn(4))
	{
		// orthonormal in four dimensions
		R e[4][4] = {};
		int p[4] = {0, 1, 2, 3};
		for (int i = 3; i > 0; i--) { int k = int(c.draw(uint64_t(i) + 1)); int q = p[i]; p[i] = p[k]; p[k] = q; }
		for (int j = 0; j < 4; j++) e[j][p[j]] = c.flip() ? R(-1) : R(1);
		return Mat4<R>::from(Vec4<R>(e[0][0], e[0][1], e[0][2], e[0][3]), Vec4<R>(e[1][0], e[1][1], e[1][2], e[1][3]),
			Vec4<R>(e[2][0], e[2][1], e[2][2], e[2][3]), Vec4<R>(e[3][0], e[3][1], e[3][2], e[3][3]));
	}
	R w[4];
	for (int i = 0; i < 4; i++) w[i] = real<R>(c, -3, 3);
	return Mat4<R>::from(Vec4<R>(x.x, x.y, x.z, w[0]), Vec4<R>(y.x, y.y, y.z, w[1]), Vec4<R>(z.x, z.y, z.z, w[2]), Vec4<R>(t.x, t.y, t.z, w[3]));
}

template <class R> void resetMat4(Case& c, Mat4<R>& m)
{
	switch (c.draw(9))
	{
	case 0: m.setIdentity(); break;
	case 1: if (c.flip()) m.set(baseMat3<R>(c)); else m.set(baseMat3<R>(c), vec3<R>(c, -6, 6)); break;
	case 2: if (c.flip()) m.set(unitQuat<R>(c)); else m.set(unitQuat<R>(c), vec3<R>(c, -6, 6)); break;
	case 3: { Vec3<R> x, y, z; columns3<R>(c, x, y, z); if (c.flip()) m.set(x, y, z); else m.set(x, y, z, vec3<R>(c, -6, 6)); break; }
	case 4: { Vec3<R> x, y, z; columns3<R>(c, x, y, z); m.set(Vec4<R>(x.x, x.y, x.z, R(0)), Vec4<R>(y.x, y.y, y.z, R(0)), Vec4<R>(z.x, z.y, z.z, R(0))); break; }
	case 5: { Coord e, a; frameCoords<R>(c, e, a); m.set(e, vec3<R>(c, -3, 3), a, vec3<R>(c, -3, 3)); break; }
	case 6: m.set(unit3<R>(c), angle<R>(c)); break;
	case 7: m.set(coord3<R>(c), angle<R>(c)); break;
	default: m.set(baseMat4<R>(c, false)); break;
	}
}
template <class R> void stepMat4(Case& c, Mat4<R>& m, bool projective)
{
	switch (c.draw(projective ? 23 : 16))
	{
	case 20: m /= nonzero<R>(c, -2, 2); break;
	case 21: m = m * nonzero<R>(c, -2, 2); break;
	case 22: m *= R(c.flip() ? 1 : -1); break;
	case 14: resetMat4<R>(c, m); break;
	case 15: { Mat4<R> b = baseMat4<R>(c, projective); m = b * m; break; }
	case 0: { Coord a = coord3<R>(c); m.rotate(a, angle<R>(c)); break; }
	case 1: { Coord a = coord3<R>(c); m.rotatePre(a, angle<R>(c)); break; }
	case 2: { Vec3<R> a = unit3<R>(c); m = m.rotated(a, angle<R>(c)); break; }
	case 3: m = m.rotatedPre(unitQuat<R>(c)); break;
	case 4: m.translate(vec3<R>(c, -3, 3)); break;
	case 5: m.translatePre(vec3<R>(c, -3, 3)); break;
	case 6: m = m.translated(vec3<R>(c, -3, 3)); break;
	case 7: m = m.translatedPre(vec3<R>(c, -3, 3)); break;
	case 8: m.scale(factors3<R>(c)); break;
	case 9: m.scalePre(factors3<R>(c)); break;
	case 10: m = m * baseMat4<R>(c, projective); break;
	case 11: m.transform(baseMat4<R>(c, projective)); break;
	case 12: m.transformPre(baseMat4<R>(c, projective)); break;
	case 13: m.optimize(); break;
	case 16: m.transpose(); break;
	case 17: m = m.transposed(); break;
	case 18: m *= nonzero<R>(c, -2, 2); break;
	default: m = -m; break;
	}
}

template <class R> Mat4<R> anyMat4(Case& c, bool projective, int maxSteps = 3)
{
	Mat4<R> m = baseMat4<R>(c, projective);
	int n = int(c.draw(uint64_t(maxSteps) + 1));
	for (int i = 0; i < n; i++)
	{
		Mat4<R> k = m;
		stepMat4<R>(c, m, projective);
		if (!sane(m)) m = k;
	}
	return m;
}

template <class R> Mat2<R> baseMat2(Case& c)
{
	Mat2<R> m;
	switch (c.draw(8))
	{
	case 0: { static const int k[] = {1, 0, -1, 2}; return Mat2<R>(R(k[c.draw(4)])); }
	case 1: return m.setIdentity();
	case 2: return Mat2<R>::from(angle<R>(c));
	case 3: return Mat2<R>(Vec2<R>(nonzero<R>(c, -3, 3), R(0)), Vec2<R>(R(0), nonzero<R>(c, -3, 3)));
	case 4: { Vec2<R> a = nonzero2<R>(c, -3, 3); return Mat2<R>(a, Vec2<R>(-a.y * 2, a.x * 2)); }
	case 5: { Vec2<R> a = unit2<R>(c), b = unit2<R>(c); return Mat2<R>::from(a, b); }
	case 6: { Vec2<R> a = vec2<R>(c, -3, 3); return Mat2<R>::from(a, a * R(2)); }
	default: { Vec2<R> a = vec2<R>(c, -3, 3), b = vec2<R>(c, -3, 3); return c.flip() ? Mat2<R>(a, b) : Mat2<R>::from(a, b); }
	}
}
template <class R> void stepMat2(Case& c, Mat2<R>& m)
{
	switch (c.draw(17))
	{
	case 11: m /= nonzero<R>(c, -2, 2); break;
	case 12: m = m * nonzero<R>(c, -2, 2); break;
	case 13: m = m / nonzero<R>(c, -2, 2); break;
	case 14: m /= R(c.flip() ? 1 : -1); break;
	case 15:
		// assigned anew
		switch (c.draw(6))
		{
		case 0: m.setIdentity(); break;
		case 1: m.set(angle<R>(c)); break;
		case 2: { Vec2<R> a = vec2<R>(c, -3, 3), b = vec2<R>(c, -3, 3); m.set(a, b); break; }
		case 3: m.slerp(Mat2<R>::from(angle<R>(c)), Mat2<R>::from(angle<R>(c)), unit01<R>(c)); break;
		case 4: m.slerpMaxAngle(Mat2<R>::from(angle<R>(c)), Mat2<R>::from(angle<R>(c)), R(c.draw(4)) / 2); break;
		default: m.set(baseMat2<R>(c)); break;
		}
		break;
	case 0: m.rotate(angle<R>(c)); break;
	case 1: m.rotatePre(angle<R>(c)); break;
	case 2: m = m.rotated(angle<R>(c)); break;
	case 3: m.scale(factors2<R>(c)); break;
	case 4: m = m.scaled(factors2<R>(c)); break;
	case 5: m.transpose(); break;
	case 6: m = m.transposed(); break;
	case 7: m *= baseMat2<R>(c); break;
	case 8: m = m * baseMat2<R>(c); break;
	case 9: m *= nonzero<R>(c, -2, 2); break;
	case 10: m *= m; break;
	default: m = -m; break;
	}
}
template <class R> Mat2<R> anyMat2(Case& c, int maxSteps = 3)
{
	Mat2<R> m = baseMat2<R>(c);
	int n = int(c.draw(uint64_t(maxSteps) + 1));
	for (int i = 0; i < n; i++)
	{
		Mat2<R> k = m;
		stepMat2<R>(c, m);
		if (!sane(m)) m = k;
	}
	return m;
}

} // namespace gen
