// Reference quaternions.
#pragma once
#include "mats.h"

namespace gen {

template <class R> std::string s(const Quat<R>& q) { return "(" + pbt::str(q.x) + ", " + pbt::str(q.y) + ", " + pbt::str(q.z) + "; " + pbt::str(q.w) + ")"; }

// exact quaternions, for comparisons with stated tolerances
struct LQ
{
	LD x, y, z, w;
	LQ() : x(0), y(0), z(0), w(1) {}
	LQ(LD a, LD b, LD d, LD e) : x(a), y(b), z(d), w(e) {}
	template <class R> LQ(const Quat<R>& q) : x(q.x), y(q.y), z(q.z), w(q.w) {}
};
inline LQ operator*(LQ a, LQ b)
{
	return LQ(a.w * b.x + b.w * a.x + (a.y * b.z - a.z * b.y),
		a.w * b.y + b.w * a.y + (a.z * b.x - a.x * b.z),
		a.w * b.z + b.w * a.z + (a.x * b.y - a.y * b.x),
		a.w * b.w - (a.x * b.x + a.y * b.y + a.z * b.z));
}
inline LQ operator-(LQ a) { return LQ(-a.x, -a.y, -a.z, -a.w); }
inline LQ conj(LQ a) { return LQ(-a.x, -a.y, -a.z, a.w); }
inline LD dot(LQ a, LQ b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
inline LD norm(LQ a) { return sqrtl(dot(a, a)); }
inline LD vlen(LQ a) { return sqrtl(a.x * a.x + a.y * a.y + a.z * a.z); }
inline LQ mulK(LQ a, LD k) { return LQ(a.x * k, a.y * k, a.z * k, a.w * k); }
inline LQ addQ(LQ a, LQ b) { return LQ(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w); }
inline LQ unit(LQ a) { return mulK(a, 1 / norm(a)); }
inline LD dist(LQ a, LQ b) { return norm(addQ(a, -b)); }
// distance of the rotations, blind to the sign of the quaternion
inline LD rdist(LQ a, LQ b) { LD d = dist(a, b), e = dist(a, -b); return d < e ? d : e; }
struct LV { LD x, y, z; };
inline LV rotateBy(LQ q, LV v)
{
	LQ r = q * LQ(v.x, v.y, v.z, 0) * conj(q);
	LD n = dot(q, q);
	return LV{r.x / n, r.y / n, r.z / n};
}
inline LQ axisAngle(LD ax, LD ay, LD az, LD angle)
{
	LD l = sqrtl(ax * ax + ay * ay + az * az);
	LD s_ = sinl(angle / 2) / l;
	return LQ(ax * s_, ay * s_, az * s_, cosl(angle / 2));
}
// angle between the quaternions as 4-vectors, accurate for small and large angles
inline LD arc(LQ a, LQ b) { return 2 * atan2l(norm(addQ(a, -b)), norm(addQ(a, b))); }
inline LQ slerpRef(LQ a, LQ b, LD w)
{
	LD t = arc(a, b);
	if (t < 1e-12L) return a;
	return addQ(mulK(a, sinl(t * (1 - w)) / sinl(t)), mulK(b, sinl(t * w) / sinl(t)));
}

template <class R> struct NQ { Num<R> x, y, z, w; };
template <class R> NQ<R> nq(const Quat<R>& q) { return NQ<R>{Num<R>(q.x), Num<R>(q.y), Num<R>(q.z), Num<R>(q.w)}; }
template <class R> NQ<R> operator*(NQ<R> a, NQ<R> b)
{
	return NQ<R>{a.w * b.x + a.x * b.w + (a.y * b.z - a.z * b.y),
		a.w * b.y + a.y * b.w + (a.z * b.x - a.x * b.z),
		a.w * b.z + a.z * b.w + (a.x * b.y - a.y * b.x),
		a.w * b.w - (a.x * b.x + a.y * b.y + a.z * b.z)};
}

template <class R> void nearQ_(Case& c, const char* what, int line, const Quat<R>& a, NQ<R> r, LD K = pbt::K_DEFAULT)
{
	try
	{
		pbt::near_<R>(c, "x", line, a.x, r.x, K);
		pbt::near_<R>(c, "y", line, a.y, r.y, K);
		pbt::near_<R>(c, "z", line, a.z, r.z, K);
		pbt::near_<R>(c, "w", line, a.w, r.w, K);
	}
	catch (pbt::Fail& f) { f.msg = std::string(what) + " = " + s(a) + ": " + f.msg; throw; }
}
#define NEARQ(ACT, REF) gen::nearQ_<Real>(c, #ACT, __LINE__, (ACT), (REF))
#define SAMEQ(A, B) do { const auto& a_ = (A); const auto& b_ = (B); c.nCompared++; if (!(a_.x == b_.x && a_.y == b_.y && a_.z == b_.z && a_.w == b_.w)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + gen::s(a_) + " differs from " #B " = " + gen::s(b_)); } while (0)
// within an absolute distance, as 4-vectors / as rotations
#define WITHINQ(A, B, TOL) do { const auto& a_ = (A); gen::LQ b_ = (B); LD t_ = (TOL); c.nCompared++; LD d_ = gen::dist(gen::LQ(a_), b_); if (!(d_ <= t_)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + gen::s(a_) + " is " + pbt::str(d_) + " from (" + pbt::str(b_.x) + ", " + pbt::str(b_.y) + ", " + pbt::str(b_.z) + "; " + pbt::str(b_.w) + "), allowed " + pbt::str(t_)); } while (0)
#define WITHINR(A, B, TOL) do { const auto& a_ = (A); gen::LQ b_ = (B); LD t_ = (TOL); c.nCompared++; LD d_ = gen::rdist(gen::LQ(a_), b_); if (!(d_ <= t_)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + gen::s(a_) + " is " + pbt::str(d_) + " from +-(" + pbt::str(b_.x) + ", " + pbt::str(b_.y) + ", " + pbt::str(b_.z) + "; " + pbt::str(b_.w) + "), allowed " + pbt::str(t_)); } while (0)

// a quaternion of any length
template <class R> Quat<R> anyQuat(Case& c)
{
	if (c.oneIn(3)) return unitQuat<R>(c);
	Vec4<R> v = vec4<R>(c, -4, 4);
	return Quat<R>(v.x, v.y, v.z, v.w, false);
}

// two unit quaternions at a chosen relation
template <class R> void quatPair(Case& c, Quat<R>& a, Quat<R>& b)
{
	a = unitQuat<R>(c);
	switch (c.draw(6))
	{
	case 0: b = a; break;
	case 1: b = -a; break;
	case 2: case 3: // at a chosen angle from a, small ones included
	{
		Vec3<R> x = unit3<R>(c);
		LD t = c.flip() ? LD(angle<R>(c)) : LD(mag<R>(c, -14, 1));
		LQ r = unit(LQ(a) * axisAngle(x.x, x.y, x.z, t));
		if (c.oneIn(4)) r = -r;
		b.x = R(r.x); b.y = R(r.y); b.z = R(r.z); b.w = R(r.w);
		break;
	}
	default: b = unitQuat<R>(c);
	}
}

} // namespace gen
