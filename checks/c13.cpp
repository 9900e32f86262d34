// C13: quaternion algebra
#include "quats.h"
#include "equal.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C13";
const char* pbt::RULE = "quaternions of any length (exact grids, axis-aligned, wide magnitudes), unit quaternions (basis, half-component, axis-angle, random, both signs), vectors, coordinates; "
	"non-trivial: the two quaternions do not commute, or the rotation moves the vector";

template <class R> static NQ<R> conjOf(NQ<R> a) { return NQ<R>{-a.x, -a.y, -a.z, a.w}; }

LAW(algebra, 2)
{
	typedef Quat<Real> Q;
	Q p = anyQuat<Real>(c), q = anyQuat<Real>(c);
	SHOWV(p); SHOWV(q);
	c.nontrivial(dist(LQ(p) * LQ(q), LQ(q) * LQ(p)) > 0.01L);
	const Q p0 = p, q0 = q;
	NQ<Real> np = nq(p), nQ = nq(q);
	NEARQ(p * q, np * nQ);
	NEARQ(p * p, np * np);
	SAMEQ(-p, (Q(-p.x, -p.y, -p.z, -p.w, false)));
	SAMEQ(p.inverse(), (Q(-p.x, -p.y, -p.z, p.w, false)));
	// q * conj(q) is the squared length
	Num<Real> n2 = nQ.x * nQ.x + nQ.y * nQ.y + nQ.z * nQ.z + nQ.w * nQ.w;
	{
		Q k = q * q.inverse();
		NEARQ(k, nQ * conjOf(nQ));
	}
	if (n2.v > 1e-4L)
	{
		NQ<Real> t = np * conjOf(nQ);
		NQ<Real> r{t.x / n2, t.y / n2, t.z / n2, t.w / n2};
		NEARQ(p / q, r);
		// dividing undoes multiplying, on the right
		Q back = (p * q) / q;
		LD tol = 64 * Num<Real>::u() * (norm(LQ(p)) * norm(LQ(q)) * norm(LQ(q)) / n2.v + norm(LQ(p)));
		WITHINQ(back, LQ(p), tol);
		Q again = (p / q) * q;
		WITHINQ(again, LQ(p), tol);
		Q one = q / q;
		WITHINQ(one, LQ(), 64 * Num<Real>::u());
	}
	// product with a vector is the vector part of the product with the pure quaternion
	Vec3<Real> v = vec3<Real>(c, -4, 4);
	SHOWV(v);
	NQ<Real> nvq{Num<Real>(v.x), Num<Real>(v.y), Num<Real>(v.z), Num<Real>(0)};
	NQ<Real> pv = np * nvq;
	NEAR3(p * v, (V3<Real>(pv.x, pv.y, pv.z)));
	SAMEQ(p, p0); SAMEQ(q, q0);
}

LAW(identities, 1)
{
	typedef Quat<Real> Q;
	Q p = anyQuat<Real>(c);
	SHOWV(p);
	c.nontrivial(vlen(LQ(p)) > 0.01L);
	const Q one = Q::One;
	SAMEQ(one, (Q(0, 0, 0, 1, false)));
	SAMEQ(p * one, p); SAMEQ(one * p, p);
	{ Q t; REQUIRE(&t.setIdentity() == &t); SAMEQ(t, one); }
	{ Q t; REQUIRE(&t.set(p) == &t); SAMEQ(t, p); }
	{ Q t; REQUIRE(&(t = p) == &t); SAMEQ(t, p); Q s = t; t = t; SAMEQ(t, s); }
	{ Q t = p; t.set(t); SAMEQ(t, p); }
	SAMEQ(Q::from(p), p);
	{ Q t(p); SAMEQ(t, p); }
	// equality is component-wise
	REQUIRE(p == p); REQUIRE(!(p != p));
	for (int i = 0; i < 4; i++)
	{
		Q t = p;
		t.data()[i] += Real(1) + (t.data()[i] < 0 ? -t.data()[i] : t.data()[i]);
		REQUIREM(p != t, i); REQUIREM(!(p == t), i); REQUIREM(t != p, i);
	}
	// raw access
	{
		const Q& k = p;
		REQUIRE(k.data()[0] == p.x); REQUIRE(k.data()[1] == p.y); REQUIRE(k.data()[2] == p.z); REQUIRE(k.data()[3] == p.w);
		REQUIRE((const void*)k.data() == (const void*)p.data());
	}
	// conversions of precision keep every component
	{
		Quat<double> d = p.template cast<double>();
		REQUIRE(d.x == double(p.x) && d.y == double(p.y) && d.z == double(p.z) && d.w == double(p.w));
		Quat<float> f = p.template cast<float>();
		REQUIRE(f.x == float(p.x) && f.y == float(p.y) && f.z == float(p.z) && f.w == float(p.w));
	}
	// normalisation
	LD n = norm(LQ(p));
	Q u = p;
	REQUIRE(&u.normalize() == &u);
	Q built(p.x, p.y, p.z, p.w);
	SAMEQ(built, u);
	{ Q b2(p.x, p.y, p.z, p.w, true); SAMEQ(b2, u); }
	{ Q raw(p.x, p.y, p.z, p.w, false); SAMEQ(raw, p); }
	if (n == 0) SAMEQ(u, one);
	else WITHINQ(u, unit(LQ(p)), 16 * Num<Real>::u());
}

// the same length however long, short or nearly right the quaternion was
LAW(normalise, 1)
{
	typedef Quat<Real> Q;
	LQ d = LQ(unitQuat<Real>(c));
	LD k;
	switch (c.draw(4))
	{
	case 0: k = 1; break;
	case 1: case 2: k = 1 + LD(mag<Real>(c, sizeof(Real) == 4 ? -22 : -50, -2)) * (c.flip() ? -1 : 1); break;
	default: k = LD(mag<Real>(c, -20, 20)); break;
	}
	Q p(Real(d.x * k), Real(d.y * k), Real(d.z * k), Real(d.w * k), false);
	SHOWV(p); SHOW(double(k));
	c.nontrivial(k != 1);
	LQ r = unit(LQ(p));
	Q u = p;
	REQUIRE(&u.normalize() == &u);
	WITHINQ(u, r, 16 * Num<Real>::u());
	WITHINQ(Q(p.x, p.y, p.z, p.w), r, 16 * Num<Real>::u());
	Q t = u;
	t.normalize();
	WITHINQ(t, LQ(u), 16 * Num<Real>::u());
}

LAW(exponential, 1)
{
	typedef Quat<Real> Q;
	LD u = Num<Real>::u();
	// a pure quaternion: half-angle times axis
	Vec3<Real> a = unit3<Real>(c);
	Real h = c.flip() ? between<Real>(c, Real(0), Real(3.1)) : c.flip() ? mag<Real>(c, -12, 1) : mag<Real>(c, -50, -12);
	Q l(a.x * h, a.y * h, a.z * h, 0, false);
	SHOWV(a); SHOW(h);
	c.nontrivial(h > Real(0.01));
	LD hl = vlen(LQ(l));
	Q e = Q::exp(l);
	LQ er = hl > 0 ? LQ(l.x / hl * sinl(hl), l.y / hl * sinl(hl), l.z / hl * sinl(hl), cosl(hl)) : LQ();
	WITHINQ(e, er, 32 * u * (1 + hl));
	CLOSE(Real(norm(LQ(e))), 1, 32 * u);
	// the smallest turn keeps its precision
	CLOSE(e.x, er.x, 64 * u * fabsl(er.x)); CLOSE(e.y, er.y, 64 * u * fabsl(er.y)); CLOSE(e.z, er.z, 64 * u * fabsl(er.z));
	// the real part of the argument plays no role for logarithms of unit quaternions
	{ Q z = Q::exp(Q(0, 0, 0, 0, false)); SAMEQ(z, Q::One); }

	Q q = unitQuat<Real>(c);
	SHOWV(q);
	Q lg = Q::log(q);
	REQUIRE(lg.w == Real(0));
	LD vl = vlen(LQ(q));
	LD ang = atan2l(vl, LD(q.w));
	// acos is ill conditioned at both ends: the error of w counts 1/sin, and once more where sin is divided by
	LD tol = 32 * u + (vl > 0 ? 8 * u * (1 + ang / vl) / vl : 0);
	if (vl > 64 * sqrtl(u))
	{
		WITHINQ(lg, LQ(q.x / vl * ang, q.y / vl * ang, q.z / vl * ang, 0), tol * 2);
		WITHINQ(Q::exp(lg), LQ(q), tol * 4);
	}
	else if (q.w > 0)
	{
		// next to the identity the logarithm is the vector part
		c.label("log near the identity");
		LD d = vlen(LQ(lg));
		REQUIREM(d <= 256 * sqrtl(u) && d == d, lg.x);
		WITHINQ(Q::exp(lg), LQ(q), 256 * sqrtl(u));
	}
	if (hl > 64 * sqrtl(u) && hl < PIL - 0.03L)
	{
		LD sl = sinl(hl);
		WITHINQ(Q::log(e), LQ(l.x, l.y, l.z, 0), (32 * u + 8 * u * (1 + hl / sl) / sl) * 4);
	}
}

LAW(rotates, 2)
{
	typedef Quat<Real> Q;
	typedef Vec3<Real> V;
	LD u = Num<Real>::u();
	Q a = unitQuat<Real>(c), b = unitQuat<Real>(c);
	V v = vec3<Real>(c, -4, 4), w = vec3<Real>(c, -4, 4);
	SHOWV(a); SHOWV(b); SHOWV(v); SHOWV(w);
	LD lv = len(v.x, v.y, v.z), lw = len(w.x, w.y, w.z);
	LV r = rotateBy(LQ(a), LV{v.x, v.y, v.z});
	c.nontrivial(len(r.x - v.x, r.y - v.y, r.z - v.z) > 0.01L);
	V av = a.rotated(v);
	#define NEARV(V_, R_, TOL) do { const V k_ = (V_); LV r_ = (R_); LD t_ = (TOL); c.nCompared++; \
		if (!(len(k_.x - r_.x, k_.y - r_.y, k_.z - r_.z) <= t_)) pbt::failWith("line " + std::to_string(__LINE__) + ": " #V_ " = " + gen::s(k_) + ", expected (" + \
			pbt::str(r_.x) + ", " + pbt::str(r_.y) + ", " + pbt::str(r_.z) + ") +- " + pbt::str(t_)); } while (0)
	NEARV(av, r, 32 * u * lv);
	// unit vectors
	{
		V e[3] = { a.rotated(Coord::X), a.rotated(Coord::Y), a.rotated(Coord::Z) };
		for (int i = 0; i < 3; i++)
			NEARV(e[i], rotateBy(LQ(a), LV{LD(i == 0), LD(i == 1), LD(i == 2)}), 32 * u);
		NEARV((e[0] * v.x + e[1] * v.y + e[2] * v.z), r, 64 * u * lv);
	}
	// its matrix
	NEARV((Mat3<Real>::from(a) * v), r, 32 * u * lv);
	// lengths, inner products and handedness
	V aw = a.rotated(w);
	REQUIRE(fabsl(len(av.x, av.y, av.z) - lv) <= 32 * u * lv);
	REQUIRE(fabsl((LD(av.x) * aw.x + LD(av.y) * aw.y + LD(av.z) * aw.z) - (LD(v.x) * w.x + LD(v.y) * w.y + LD(v.z) * w.z)) <= 64 * u * lv * lw);
	{
		LV x{LD(av.y) * aw.z - LD(av.z) * aw.y, LD(av.z) * aw.x - LD(av.x) * aw.z, LD(av.x) * aw.y - LD(av.y) * aw.x};
		NEARV(a.rotated(v % w), x, 128 * u * lv * lw);
	}
	// the product applies its right operand first
	NEARV((a * b).rotated(v), rotateBy(LQ(a), rotateBy(LQ(b), LV{v.x, v.y, v.z})), 64 * u * lv);
	NEARV(a.rotated(b.rotated(v)), rotateBy(LQ(a) * LQ(b), LV{v.x, v.y, v.z}), 64 * u * lv);
	{
		// matrices that close to the identity (10^-10 in the squared elements) are used as such
		const Mat3<Real> ma = Mat3<Real>::from(a), mb = Mat3<Real>::from(b);
		LD slack = 0;
		for (const Q* q : {&a, &b}) { LD h2 = LD(q->x) * q->x + LD(q->y) * q->y + LD(q->z) * q->z; if (8 * h2 <= 1.02e-10L) slack += sqrtl(8 * h2); }
		NEARV((ma * mb * v), rotateBy(LQ(a) * LQ(b), LV{v.x, v.y, v.z}), (96 * u + slack) * lv);
	}
	// the quotient undoes its right operand first
	NEARV((a / b).rotated(b.rotated(v)), r, 96 * u * lv);
	// opposite quaternions are the same rotation, the inverse turns back
	NEARV((-a).rotated(v), r, 32 * u * lv);
	NEARV(a.inverse().rotated(av), (LV{v.x, v.y, v.z}), 64 * u * lv);
	// the 4x4 and 3x4 forms
	{
		V t; Mat4<Real>::from(a, Vec3<Real>(0, 0, 0)).transform(t, v); NEARV(t, r, 32 * u * lv);
		Mat34<Real>::from(a, Vec3<Real>(0, 0, 0)).transform(t, v); NEARV(t, r, 32 * u * lv);
	}
}

// equal exactly when every component is, zeros of either sign included
LAW(equality, 1)
{
	Quat<Real> a, b; equality<Real>(c, a, b, { &a.x, &a.y, &a.z, &a.w }, { &b.x, &b.y, &b.z, &b.w });
}
