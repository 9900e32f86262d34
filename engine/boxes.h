// Boxes, circles and spheres, lines and rays in two and three dimensions under one interface.
#pragma once
#include "gen.h"
#include <memory>

namespace gen {

template <class R, int DIM> struct Geo;

template <class R> struct Geo<R, 2>
{
	enum { D = 2 };
	typedef R Real; typedef Vec2<R> V; typedef AABB2<R> A; typedef CAABB2<R> B; typedef Circle<R> S; typedef Ray2<R> Ray; typedef Line2<R> Line;
	static R get(const V& v, int i) { return i ? v.y : v.x; }
	static R& at(V& v, int i) { return i ? v.y : v.x; }
	static V zero() { return V(R(0), R(0)); }
	static V vec(Case& c) { return vec2<R>(c); }
	static V unit(Case& c) { return unit2<R>(c); }
	template <class Box> static S inner(const Box& b) { return b.innerCircle(); }
	template <class Box> static S outer(const Box& b) { return b.outerCircle(); }
	template <class Box> static R measure(const Box& b) { return b.area(); }
	static B fromCorners(const A& a) { return B::fromInfSup(a.inf, a.sup); }
	template <class O> struct As { typedef Vec2<O> V; typedef AABB2<O> A; typedef CAABB2<O> B; typedef Circle<O> S; typedef Ray2<O> Ray; typedef Line2<O> Line; };
	typedef Vec2<R> BaseV;
};

template <class R> struct Geo<R, 3>
{
	enum { D = 3 };
	typedef R Real; typedef Vec3<R> V; typedef AABB3<R> A; typedef CAABB3<R> B; typedef Sphere<R> S; typedef Ray3<R> Ray; typedef Line3<R> Line;
	static R get(const V& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
	static R& at(V& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
	static V zero() { return V(R(0), R(0), R(0)); }
	static V vec(Case& c) { return vec3<R>(c); }
	static V unit(Case& c) { return unit3<R>(c); }
	template <class Box> static S inner(const Box& b) { return b.innerSphere(); }
	template <class Box> static S outer(const Box& b) { return b.outerSphere(); }
	template <class Box> static R measure(const Box& b) { return b.volume(); }
	static B fromCorners(const A& a) { return B::from(a); }
	template <class O> struct As { typedef Vec3<O> V; typedef AABB3<O> A; typedef CAABB3<O> B; typedef Sphere<O> S; typedef Ray3<O> Ray; typedef Line3<O> Line; };
};

// GEOLAW(name, weight): body is a template over T = Geo<Real, 2 or 3>, registered for both dimensions and precisions
#define GEOLAW(ID, WEIGHT) \
	template <class T> static void law_##ID(pbt::Case& c); \
	static pbt::Reg PBT_CAT(reg2f_, ID)(#ID "2<float>", &law_##ID<gen::Geo<float, 2>>, WEIGHT); \
	static pbt::Reg PBT_CAT(reg2d_, ID)(#ID "2<double>", &law_##ID<gen::Geo<double, 2>>, WEIGHT); \
	static pbt::Reg PBT_CAT(reg3f_, ID)(#ID "3<float>", &law_##ID<gen::Geo<float, 3>>, WEIGHT); \
	static pbt::Reg PBT_CAT(reg3d_, ID)(#ID "3<double>", &law_##ID<gen::Geo<double, 3>>, WEIGHT); \
	template <class T> static void law_##ID(pbt::Case& c)
#define GEOLAW3(ID, WEIGHT) \
	template <class T> static void law_##ID(pbt::Case& c); \
	static pbt::Reg PBT_CAT(reg3f_, ID)(#ID "3<float>", &law_##ID<gen::Geo<float, 3>>, WEIGHT); \
	static pbt::Reg PBT_CAT(reg3d_, ID)(#ID "3<double>", &law_##ID<gen::Geo<double, 3>>, WEIGHT); \
	template <class T> static void law_##ID(pbt::Case& c)
#define GEOTYPES typedef typename T::Real Real; typedef typename T::V V; typedef typename T::A A; typedef typename T::B B; typedef typename T::S S; \
	typedef typename T::Ray Ray; typedef typename T::Line Line; const int D = T::D; (void)D; const LD u = Num<Real>::u(); (void)u; \
	(void)sizeof(A); (void)sizeof(B); (void)sizeof(S); (void)sizeof(Ray); (void)sizeof(Line); (void)sizeof(V)

// A source of coordinates: `exact` sources give multiples of 1/4 of small size, for which the
// library's sums and halvings are exact, so that touching is decided without rounding;
// coordinates already handed out come back often.
template <class R> struct Pool
{
	bool exact;
	std::vector<R> seen;
	explicit Pool(bool e) : exact(e) {}
	R next(Case& c)
	{
		if (!seen.empty() && c.draw(3) == 1) return seen[c.draw(seen.size())];
		R r = exact ? R(grid<R>(c, 24)) / R(4) : real<R>(c, -6, 6);
		seen.push_back(r);
		return r;
	}
};
template <class T> typename T::V anyPoint(Case& c, Pool<typename T::Real>& p)
{
	typename T::V v = T::zero();
	for (int i = 0; i < T::D; i++) T::at(v, i) = p.next(c);
	return v;
}
// each axis from its own pool, so that axes are shared between boxes
template <class R> struct Pools { Pool<R> ax[3]; bool exact; explicit Pools(bool e) : ax{Pool<R>(e), Pool<R>(e), Pool<R>(e)}, exact(e) {} };
template <class T> typename T::V anyPoint(Case& c, Pools<typename T::Real>& p)
{
	typename T::V v = T::zero();
	for (int i = 0; i < T::D; i++) T::at(v, i) = p.ax[i].next(c);
	return v;
}
template <class T> typename T::A anyBox(Case& c, Pools<typename T::Real>& p)
{
	typename T::A a;
	for (int i = 0; i < T::D; i++)
	{
		auto x = p.ax[i].next(c), y = p.ax[i].next(c);
		T::at(a.inf, i) = x < y ? x : y;
		T::at(a.sup, i) = x < y ? y : x;
	}
	return a;
}

template <class T> bool sameV(const typename T::V& a, const typename T::V& b)
{
	for (int i = 0; i < T::D; i++) if (!(T::get(a, i) == T::get(b, i))) return false;
	return true;
}
#define SAMEV(X, Y) do { auto a_ = (X); auto b_ = (Y); c.nCompared++; if (!gen::sameV<T>(a_, b_)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #X " = " + gen::s(a_) + " differs from " #Y " = " + gen::s(b_)); } while (0)
template <class T, class Box> std::string sbox(const Box& b) { return "[" + s(b.inf) + " .. " + s(b.sup) + "]"; }
#define SAMEBOX(X, Y) do { auto a_ = (X); auto b_ = (Y); c.nCompared++; if (!gen::sameV<T>(a_.inf, b_.inf) || !gen::sameV<T>(a_.sup, b_.sup)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #X " = " + gen::sbox<T>(a_) + " differs from " #Y " = " + gen::sbox<T>(b_)); } while (0)
#define SHOWBOX(X) c.show(#X, gen::sbox<T>(X))

// everything again at another size; coordinates far from the extremes, so that fourth powers are representable
template <class T> typename T::V vecK(Case& c)
{
	typename T::V v = T::zero();
	int how = int(c.draw(3));
	for (int i = 0; i < T::D; i++) T::at(v, i) = how == 0 ? grid<typename T::Real>(c, 8) : how == 1 && i && c.flip() ? T::get(v, i - 1) : real<typename T::Real>(c, -6, 6);
	return v;
}
template <class T> typename T::V scaleV(const typename T::V& v, typename T::Real k) { typename T::V r = T::zero(); for (int i = 0; i < T::D; i++) T::at(r, i) = T::get(v, i) * k; return r; }
template <class T> typename T::A scaleA(const typename T::A& a, typename T::Real k) { typename T::A r; r.inf = scaleV<T>(a.inf, k); r.sup = scaleV<T>(a.sup, k); return r; }
template <class T> typename T::B scaleB(const typename T::B& a, typename T::Real k) { typename T::B r; r.center = scaleV<T>(a.center, k); r.extents = scaleV<T>(a.extents, k); return r; }
template <class T> typename T::S scaleS(const typename T::S& a, typename T::Real k) { typename T::S r; r.center = scaleV<T>(a.center, k); r.radius = a.radius * k; return r; }
template <class T> typename T::A boxK(Case& c)
{
	typename T::A r; r.inf = vecK<T>(c); r.sup = vecK<T>(c);
	for (int i = 0; i < T::D; i++) if (T::get(r.inf, i) > T::get(r.sup, i)) std::swap(T::at(r.inf, i), T::at(r.sup, i));
	return r;
}
template <class T> LD sizeOf(const typename T::V& v) { LD m = 0; for (int i = 0; i < T::D; i++) m = std::max(m, fabsl(T::get(v, i))); return m; }
// the same but for the size: x at size k against y at size 1
template <class T> void likeV(Case& c, const char* what, int line, const typename T::V& x, const typename T::V& y, LD k, LD size)
{
	for (int i = 0; i < T::D; i++) pbt::near_<typename T::Real>(c, what, line, typename T::Real(T::get(x, i) / k), Num<typename T::Real>(T::get(y, i), 64 * Num<typename T::Real>::u() * size), 1);
}
#define LIKEV(X, Y, K, SIZE) gen::likeV<T>(c, #X, __LINE__, (X), (Y), (K), (SIZE))
#define LIKE(X, Y, K, SIZE) do { c.nCompared++; LD x_ = LD(X) / (K), y_ = LD(Y); if (!(fabsl(x_ - y_) <= 64 * Num<Real>::u() * (SIZE))) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #X " at another size is " + pbt::str(x_) + " and was " + pbt::str(y_)); } while (0)

// per-axis references with error bounds
template <class T> struct NV { Num<typename T::Real> a[3]; };
template <class T> NV<T> nv(const typename T::V& v) { NV<T> r; for (int i = 0; i < T::D; i++) r.a[i] = Num<typename T::Real>(T::get(v, i)); return r; }
template <class T> NV<T> operator_map(int) { return NV<T>(); }
template <class T> void nearV(Case& c, const char* what, int line, const typename T::V& act, const NV<T>& ref, LD K)
{
	static const char* nm[3] = {"x", "y", "z"};
	try { for (int i = 0; i < T::D; i++) pbt::near_<typename T::Real>(c, nm[i], line, T::get(act, i), ref.a[i], K); }
	catch (pbt::Fail& f) { f.msg = std::string(what) + " = " + s(act) + ": " + f.msg; throw; }
}
#define NEARV(X, REF) gen::nearV<T>(c, #X, __LINE__, (X), (REF), pbt::K_DEFAULT)
template <class T, class F> NV<T> perAxis(F f) { NV<T> r; for (int i = 0; i < T::D; i++) r.a[i] = f(i); return r; }

// A yes/no answer against a margin that is >= 0 exactly when the answer is yes. Margins within
// their error are not judged unless the arithmetic was exact.
template <class R> struct Margin
{
	bool yes = true, sure = true;
	bool exact;
	explicit Margin(bool e) : exact(e) {}
	void all(Num<R> m)     // the answer is yes when every margin is >= 0
	{
		LD tol = exact ? 0 : 16 * m.e + 1e-30L;
		if (m.bad()) { sure = false; return; }
		if (m.v < -tol) { no = true; }
		else if (m.v < tol && !exact) { sure = false; }
	}
	bool no = false;
	// 1 yes, 0 no, -1 cannot tell
	int verdict() const { return no ? 0 : sure ? 1 : -1; }
};
#define DECIDE(COND, M) do { int v_ = (M).verdict(); bool r_ = (COND); c.nCompared++; if (v_ < 0) c.skipped(); else if (r_ != (v_ == 1)) \
	pbt::failWith("line " + std::to_string(__LINE__) + ": " #COND " is " + (r_ ? "true" : "false")); } while (0)

// points in memory: contiguous, or `stride` bytes apart in a buffer of exactly the bytes needed,
// the gaps filled with values that would show if read
template <class T> struct Strided
{
	std::unique_ptr<char[]> mem;
	int stride;
	const typename T::V* points() const { return (const typename T::V*)mem.get(); }
	Strided(Case& c, const std::vector<typename T::V>& p)
	{
		typedef typename T::Real R;
		stride = int(sizeof(typename T::V)) + int(sizeof(R)) * c.range(0, 5);
		size_t n = (p.size() - 1) * size_t(stride) + sizeof(typename T::V);
		mem.reset(new char[n]);
		R* q = (R*)mem.get();
		for (size_t i = 0; i < n / sizeof(R); i++) q[i] = (i & 1) ? R(1e6) : R(-1e6);
		for (size_t i = 0; i < p.size(); i++) memcpy(mem.get() + i * stride, &p[i], sizeof p[i]);
	}
};
template <class T> std::unique_ptr<typename T::V[]> packed(const std::vector<typename T::V>& p)
{
	std::unique_ptr<typename T::V[]> m(new typename T::V[p.size()]);
	for (size_t i = 0; i < p.size(); i++) m[i] = p[i];
	return m;
}

} // namespace gen
