// Generators and reference helpers for the library's types.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <mathlib.h>
#include <ostream>

namespace gen {

using namespace mathlib;
using pbt::Case;
using pbt::LD;
using pbt::Num;

const LD PIL = 3.14159265358979323846264338327950288L;

// ---- printing -----------------------------------------------------------
template <class R> std::string s(const Vec2<R>& v) { return "(" + pbt::str(v.x) + ", " + pbt::str(v.y) + ")"; }
template <class R> std::string s(const Vec3<R>& v) { return "(" + pbt::str(v.x) + ", " + pbt::str(v.y) + ", " + pbt::str(v.z) + ")"; }
template <class R> std::string s(const Vec4<R>& v) { return "(" + pbt::str(v.x) + ", " + pbt::str(v.y) + ", " + pbt::str(v.z) + ", " + pbt::str(v.w) + ")"; }

// ---- scalars -------------------------------------------------------------

// uniform in [0, 1] with full mantissa
template <class R> R unit01(Case& c)
{
	switch (c.draw(8))
	{
	case 0: return R(0);
	case 1: return R(1);
	case 2: return R(c.draw(17)) / R(16);
	default: return R(LD(c.draw(1ull << 53)) / LD(1ull << 53));
	}
}

template <class R> R between(Case& c, R lo, R hi)
{
	R r = R(LD(lo) + (LD(hi) - LD(lo)) * LD(c.draw((1ull << 53) + 1)) / LD(1ull << 53));
	if (r < lo) r = lo;
	if (r > hi) r = hi;
	return r;
}

// log-uniform magnitude in [2^lo, 2^hi)
template <class R> R mag(Case& c, int lo, int hi)
{
	int e = c.range(lo, hi - 1);
	R m = R(1) + R(LD(c.draw(1ull << 52)) / LD(1ull << 52));
	if (m >= R(2)) m = R(1.5);
	return R(std::ldexp(double(m), e));
}

// general scalar: small integers first (simplest), fractions, uniform, wide magnitudes
template <class R> R real(Case& c, int loExp = -8, int hiExp = 8)
{
	switch (c.draw(8))
	{
	case 0: { int64_t i = int64_t(c.draw(9)); return R((i & 1) ? (i + 1) / 2 : -(i / 2)); }
	case 1: { static const double sp[] = {0, 1, -1, 0.5, -0.5, 2, -2, 0.25, 3, -3, 10, -10}; return R(sp[c.draw(12)]); }
	case 2: return R(int64_t(c.draw(81)) - 40) / R(8);
	case 3: case 4: case 5: return between<R>(c, R(-10), R(10));
	case 6: { R m = mag<R>(c, loExp, hiExp); return c.flip() ? -m : m; }
	default:
		// now and then far outside the usual range (when the law has not narrowed it)
		if (loExp == -8 && hiExp == 8 && c.draw(4) == 3) { R m = mag<R>(c, -24, 24); return c.flip() ? -m : m; }
		{ R m = mag<R>(c, loExp, hiExp); return c.flip() ? -m : m; }
	}
}

template <class R> R nonzero(Case& c, int loExp = -6, int hiExp = 6)
{
	R r;
	switch (c.draw(4))
	{
	case 0: r = R(1 + int(c.draw(5))); break;
	case 1: r = R(1 + int(c.draw(32))) / R(8); break;
	default: r = mag<R>(c, loExp, hiExp);
	}
	return c.flip() ? -r : r;
}

// what one divides by: also far from one
template <class R> R divisor(Case& c)
{
	if (c.oneIn(6)) { R m = mag<R>(c, -40, 40); return c.flip() ? -m : m; }
	return nonzero<R>(c);
}

template <class R> R positive(Case& c, int loExp = -6, int hiExp = 6)
{
	switch (c.draw(4))
	{
	case 0: return R(1 + int(c.draw(5)));
	case 1: return R(1 + int(c.draw(32))) / R(8);
	default: return mag<R>(c, loExp, hiExp);
	}
}

// a power of two: sizes change by it without rounding, so what is asked of scaled inputs must be
// answered as before
template <class R> R pow2(Case& c)
{
	int wide = sizeof(R) == 4 || c.flip() ? 20 : 160;
	return R(std::ldexp(1.0, c.range(-wide, wide)));
}

// small exact values (integers / eighths), for boundary cases where arithmetic is exact
template <class R> R grid(Case& c, int n = 6) { int i = int(c.draw(uint64_t(2 * n + 1))); return R((i & 1) ? (i + 1) / 2 : -(i / 2)); }

// a multiple of a number, give or take a little: operands that nearly cancel
template <class R> R nearly(Case& c, R x, R k) { R y = x * k; return c.flip() ? y : R(y + y * (c.flip() ? 1 : -1) * mag<R>(c, -30, -2)); }

template <class R> R angle(Case& c)
{
	switch (c.draw(6))
	{
	case 0: if (c.oneIn(4)) return R(c.range(-12, 12)) / 2; return R(LD(c.range(-8, 8)) * PIL / 4);
	case 1: return R(LD(c.range(-24, 24)) * PIL / 12);
	case 2: { R m = mag<R>(c, -10, 0); return c.flip() ? -m : m; }
	case 3: return between<R>(c, R(-20), R(20));
	default: return between<R>(c, R(-PIL), R(PIL));
	}
}

// how many elements: mostly few, now and then many (blocks of a power of two and their neighbours)
static inline int count(Case& c, int lo, int few, int most)
{
	switch (c.draw(16))
	{
	case 14: return std::min(most, std::max(lo, (1 << c.range(2, 6)) + c.range(-1, 1)));
	case 15: return c.range(lo, most);
	default: return c.range(lo, few);
	}
}

// ---- vectors -------------------------------------------------------------

// now and then a whole vector is small, in all its components alike
template <class R> R faint(Case& c, int lo, int hi) { return lo == -8 && hi == 8 && c.oneIn(16) ? R(std::ldexp(1.0, -c.range(4, sizeof(R) == 4 ? 10 : 24))) : R(1); }

template <class R> Vec2<R> vec2(Case& c, int lo = -8, int hi = 8)
{
	Vec2<R> v(R(0), R(0));
	switch (c.draw(6))
	{
	case 0: v.x = grid<R>(c); v.y = grid<R>(c); break;
	case 1: { R k = real<R>(c, lo, hi); if (c.flip()) v.x = k; else v.y = k; break; }
	case 2: { R k = real<R>(c, lo, hi); v.x = k; v.y = c.flip() ? -k : k; break; }
	default: v.x = real<R>(c, lo, hi); v.y = real<R>(c, lo, hi);
	}
	{ R k = faint<R>(c, lo, hi); v.x *= k; v.y *= k; }
	return v;
}

template <class R> Vec3<R> vec3(Case& c, int lo = -8, int hi = 8)
{
	Vec3<R> v(R(0), R(0), R(0));
	switch (c.draw(6))
	{
	case 0: v.x = grid<R>(c); v.y = grid<R>(c); v.z = grid<R>(c); break;
	case 1: { R k = real<R>(c, lo, hi); switch (c.draw(3)) { case 0: v.x = k; break; case 1: v.y = k; break; default: v.z = k; } break; }
	case 2: { R k = real<R>(c, lo, hi); v.x = c.flip() ? -k : k; v.y = c.flip() ? -k : k; v.z = c.flip() ? -k : k; if (c.oneIn(3)) { R o = real<R>(c, lo, hi); switch (c.draw(3)) { case 0: v.x = o; break; case 1: v.y = o; break; default: v.z = o; } } break; }
	default: v.x = real<R>(c, lo, hi); v.y = real<R>(c, lo, hi); v.z = real<R>(c, lo, hi);
	}
	{ R k = faint<R>(c, lo, hi); v.x *= k; v.y *= k; v.z *= k; }
	return v;
}

template <class R> Vec4<R> vec4(Case& c, int lo = -8, int hi = 8)
{
	Vec3<R> v = vec3<R>(c, lo, hi);
	R w = real<R>(c, lo, hi);
	return Vec4<R>(v.x, v.y, v.z, w);
}

// a second operand that has something to do with the first: equal, opposite, parallel, perpendicular, sharing a component, or nearly so
template <class V> V related(Case& c, const V& u, V v)
{
	typedef typename std::decay<decltype(u.x)>::type R;
	const int n = int(sizeof(V) / sizeof(R));
	R a[4], b[4];
	for (int i = 0; i < n; i++) { a[i] = (&u.x)[i]; b[i] = (&v.x)[i]; }
	switch (c.draw(5))
	{
	case 0: { R k = nonzero<R>(c); for (int i = 0; i < n; i++) b[i] = a[i] * k; break; }
	case 1: { R k = nonzero<R>(c); for (int i = 0; i < n; i++) b[i] = nearly(c, a[i], k); break; }
	case 2: { int i = int(c.draw(uint64_t(n))), j = (i + 1 + int(c.draw(uint64_t(n - 1)))) % n; R k = nonzero<R>(c); for (int q = 0; q < n; q++) b[q] = 0; b[i] = nearly(c, a[j], -k); b[j] = nearly(c, a[i], k); break; }
	case 3: for (int i = 0; i < n; i++) b[i] = c.flip() ? -a[i] : a[i]; break;
	default: { int i = int(c.draw(uint64_t(n))); b[i] = c.flip() ? -a[i] : a[i]; }
	}
	for (int i = 0; i < n; i++) (&v.x)[i] = b[i];
	return v;
}

template <class R> Vec3<R> nonzero3(Case& c, int lo = -6, int hi = 6)
{
	Vec3<R> v = vec3<R>(c, lo, hi);
	if (v.x == R(0) && v.y == R(0) && v.z == R(0))
		switch (c.draw(3)) { case 0: v.x = R(1); break; case 1: v.y = R(1); break; default: v.z = R(1); }
	return v;
}

template <class R> Vec2<R> nonzero2(Case& c, int lo = -6, int hi = 6)
{
	Vec2<R> v = vec2<R>(c, lo, hi);
	if (v.x == R(0) && v.y == R(0)) { if (c.flip()) v.y = R(1); else v.x = R(1); }
	return v;
}

inline LD len(LD x, LD y, LD z = 0) { return sqrtl(x * x + y * y + z * z); }

// unit to within rounding of R
template <class R> Vec3<R> unit3(Case& c)
{
	static const int ax[6][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
	if (c.draw(4) == 0) { const int* a = ax[c.draw(6)]; return Vec3<R>(R(a[0]), R(a[1]), R(a[2])); }
	Vec3<R> v = nonzero3<R>(c, -3, 3);
	LD l = len(v.x, v.y, v.z);
	return Vec3<R>(R(v.x / l), R(v.y / l), R(v.z / l));
}

template <class R> Vec2<R> unit2(Case& c)
{
	static const int ax[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
	if (c.draw(4) == 0) { const int* a = ax[c.draw(4)]; return Vec2<R>(R(a[0]), R(a[1])); }
	Vec2<R> v = nonzero2<R>(c, -3, 3);
	LD l = len(v.x, v.y);
	return Vec2<R>(R(v.x / l), R(v.y / l));
}

template <class R> Coord coord3(Case& c) { static const Coord t[3] = {Coord::X, Coord::Y, Coord::Z}; return t[c.draw(3)]; }
template <class R> Coord coord2(Case& c) { static const Coord t[2] = {Coord::X, Coord::Y}; return t[c.draw(2)]; }

// ---- reference vectors -----------------------------------------------------

template <class R> struct V2 {
	Num<R> x, y;
	V2() {}
	V2(Num<R> a, Num<R> b) : x(a), y(b) {}
	V2(const Vec2<R>& v) : x(v.x), y(v.y) {}
};
template <class R> struct V3 {
	Num<R> x, y, z;
	V3() {}
	V3(Num<R> a, Num<R> b, Num<R> d) : x(a), y(b), z(d) {}
	V3(const Vec3<R>& v) : x(v.x), y(v.y), z(v.z) {}
};
template <class R> struct V4 {
	Num<R> x, y, z, w;
	V4() {}
	V4(Num<R> a, Num<R> b, Num<R> d, Num<R> e) : x(a), y(b), z(d), w(e) {}
	V4(const Vec4<R>& v) : x(v.x), y(v.y), z(v.z), w(v.w) {}
};
template <class R> V2<R> operator+(V2<R> a, V2<R> b) { return V2<R>(a.x + b.x, a.y + b.y); }
template <class R> V2<R> operator-(V2<R> a, V2<R> b) { return V2<R>(a.x - b.x, a.y - b.y); }
template <class R> V2<R> operator*(V2<R> a, Num<R> k) { return V2<R>(a.x * k, a.y * k); }
template <class R> Num<R> dot(V2<R> a, V2<R> b) { return a.x * b.x + a.y * b.y; }
template <class R> Num<R> cross(V2<R> a, V2<R> b) { return a.x * b.y - a.y * b.x; }
template <class R> V3<R> operator+(V3<R> a, V3<R> b) { return V3<R>(a.x + b.x, a.y + b.y, a.z + b.z); }
template <class R> V3<R> operator-(V3<R> a, V3<R> b) { return V3<R>(a.x - b.x, a.y - b.y, a.z - b.z); }
template <class R> V3<R> operator*(V3<R> a, Num<R> k) { return V3<R>(a.x * k, a.y * k, a.z * k); }
template <class R> Num<R> dot(V3<R> a, V3<R> b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
template <class R> V3<R> cross(V3<R> a, V3<R> b) { return V3<R>(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
template <class R> Num<R> length(V3<R> a) { return nsqrt(dot(a, a)); }
template <class R> Num<R> length(V2<R> a) { return nsqrt(dot(a, a)); }
template <class R> V4<R> operator+(V4<R> a, V4<R> b) { return V4<R>(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w); }
template <class R> V4<R> operator*(V4<R> a, Num<R> k) { return V4<R>(a.x * k, a.y * k, a.z * k, a.w * k); }
template <class R> Num<R> dot(V4<R> a, V4<R> b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }

template <class R> void near2(Case& c, const char* what, int line, const Vec2<R>& a, V2<R> r, LD K)
{
	std::string w = std::string(what) + " ";
	pbt::near_<R>(c, (w + ".x").c_str(), line, a.x, r.x, K);
	pbt::near_<R>(c, (w + ".y").c_str(), line, a.y, r.y, K);
}
template <class R> void near3(Case& c, const char* what, int line, const Vec3<R>& a, V3<R> r, LD K)
{
	// the string is only built on failure
	try
	{
		pbt::near_<R>(c, "x", line, a.x, r.x, K);
		pbt::near_<R>(c, "y", line, a.y, r.y, K);
		pbt::near_<R>(c, "z", line, a.z, r.z, K);
	}
	catch (pbt::Fail& f) { f.msg = std::string(what) + " = " + s(a) + ": " + f.msg; throw; }
}
template <class R> void near4(Case& c, const char* what, int line, const Vec4<R>& a, V4<R> r, LD K)
{
	try
	{
		pbt::near_<R>(c, "x", line, a.x, r.x, K);
		pbt::near_<R>(c, "y", line, a.y, r.y, K);
		pbt::near_<R>(c, "z", line, a.z, r.z, K);
		pbt::near_<R>(c, "w", line, a.w, r.w, K);
	}
	catch (pbt::Fail& f) { f.msg = std::string(what) + " = " + s(a) + ": " + f.msg; throw; }
}
template <class R> void near2_(Case& c, const char* what, int line, const Vec2<R>& a, V2<R> r, LD K)
{
	try
	{
		pbt::near_<R>(c, "x", line, a.x, r.x, K);
		pbt::near_<R>(c, "y", line, a.y, r.y, K);
	}
	catch (pbt::Fail& f) { f.msg = std::string(what) + " = " + s(a) + ": " + f.msg; throw; }
}

#define NEAR2(ACT, REF) gen::near2_<Real>(c, #ACT, __LINE__, (ACT), gen::V2<Real>(REF), pbt::K_DEFAULT)
#define NEAR3(ACT, REF) gen::near3<Real>(c, #ACT, __LINE__, (ACT), gen::V3<Real>(REF), pbt::K_DEFAULT)
#define NEAR3K(ACT, REF, K) gen::near3<Real>(c, #ACT, __LINE__, (ACT), gen::V3<Real>(REF), (K))
#define NEAR4(ACT, REF) gen::near4<Real>(c, #ACT, __LINE__, (ACT), gen::V4<Real>(REF), pbt::K_DEFAULT)

template <class R> V3<R> v3(LD x, LD y, LD z, LD e) { return V3<R>(Num<R>(x, e), Num<R>(y, e), Num<R>(z, e)); }
template <class R> V2<R> v2(LD x, LD y, LD e) { return V2<R>(Num<R>(x, e), Num<R>(y, e)); }

// bitwise-style equality that treats NaN as different
#define SAME2(A, B) do { const auto& a_ = (A); const auto& b_ = (B); c.nCompared++; if (!(a_.x == b_.x && a_.y == b_.y)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + gen::s(a_) + " differs from " #B " = " + gen::s(b_)); } while (0)
#define SAME3(A, B) do { const auto& a_ = (A); const auto& b_ = (B); c.nCompared++; if (!(a_.x == b_.x && a_.y == b_.y && a_.z == b_.z)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + gen::s(a_) + " differs from " #B " = " + gen::s(b_)); } while (0)
#define SAME4(A, B) do { const auto& a_ = (A); const auto& b_ = (B); c.nCompared++; if (!(a_.x == b_.x && a_.y == b_.y && a_.z == b_.z && a_.w == b_.w)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + gen::s(a_) + " differs from " #B " = " + gen::s(b_)); } while (0)
#define SAME(A, B) do { auto a_ = (A); auto b_ = (B); c.nCompared++; if (!(a_ == b_)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #A " = " + pbt::str(a_) + " differs from " #B " = " + pbt::str(b_)); } while (0)

#define SHOW(X) c.show(#X, X)
#define SHOWV(X) c.show(#X, gen::s(X))

} // namespace gen

// found by argument-dependent lookup where laws print vectors
namespace mathlib {
template <class R> std::ostream& operator<<(std::ostream& o, const Vec2<R>& v) { return o << gen::s(v); }
template <class R> std::ostream& operator<<(std::ostream& o, const Vec3<R>& v) { return o << gen::s(v); }
template <class R> std::ostream& operator<<(std::ostream& o, const Vec4<R>& v) { return o << gen::s(v); }
}
