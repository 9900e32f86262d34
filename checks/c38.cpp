// C38: array routines stay inside their arrays and leave no memory behind
#include "mats.h"
#include "quats.h"
#include <memory>
#include <new>
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C38";
const char* pbt::RULE = "linear systems of 1 to 24 unknowns, regular and singular at every pivot, splines through 2 to 24 points, point sets and batches of 0 to 9 elements with gaps, in arrays of exactly the size the routine is given, the surroundings filled with different values each time; "
	"non-trivial: the routine allocates, or works with gaps between the elements";

// ---- every allocation of the process ------------------------------------------------
static bool watching = false;
struct Live { void* p; bool array; };
static Live live[256];
static int nLive = 0, nMade = 0, nMismatch = 0, nUnknown = 0;
static void* take(size_t n, bool array)
{
	void* p = malloc(n ? n : 1);
	if (!p) abort();
	if (watching) { nMade++; if (nLive < 256) live[nLive++] = Live{p, array}; }
	return p;
}
static void give(void* p, bool array)
{
	if (p && watching)
	{
		int i = 0;
		while (i < nLive && live[i].p != p) i++;
		if (i == nLive) nUnknown++;
		else { if (live[i].array != array) nMismatch++; live[i] = live[--nLive]; }
	}
	free(p);
}
void* operator new(size_t n) { return take(n, false); }
void* operator new[](size_t n) { return take(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, true); }
void operator delete(void* p) noexcept { give(p, false); }
void operator delete[](void* p) noexcept { give(p, true); }
void operator delete(void* p, size_t) noexcept { give(p, false); }
void operator delete[](void* p, size_t) noexcept { give(p, true); }

template <class F> static void watch(Case& c, F&& f)
{
	nLive = nMade = nMismatch = nUnknown = 0;
	watching = true;
	f();
	watching = false;
	REQUIREM(nLive == 0, std::to_string(nLive) + " of " + std::to_string(nMade) + " allocations are not released");
	REQUIREM(nMismatch == 0, "an array released as a single object, or the other way round");
	REQUIREM(nUnknown == 0, "released what it did not allocate");
	c.nontrivial(nMade > 0);
}

// ---- arrays of exactly n elements ---------------------------------------------------
#if defined(__SANITIZE_ADDRESS__)
#define EXACT 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EXACT 1
#endif
#endif
#ifndef EXACT
#define EXACT 0
#endif

// bytes before and after the array; with the address sanitizer none, it guards the array itself
struct Arr
{
	enum { G = EXACT ? 0 : 192 };
	size_t n;
	unsigned char* raw;
	std::vector<unsigned char> was;
	unsigned char junk;
	Arr(size_t bytes, unsigned char junk_) : n(bytes), raw((unsigned char*)malloc(bytes + 2 * G + (EXACT && !bytes))), junk(junk_) { memset(raw, junk, bytes + 2 * G); }
	Arr(const Arr&) = delete;
	~Arr() { free(raw); }
	unsigned char* at() { return raw + G; }
	void snap() { was.assign(at(), at() + n); }
	bool unchanged() { return n == 0 || memcmp(was.data(), at(), n) == 0; }
	bool guards()
	{
		for (size_t i = 0; i < G; i++) if (raw[i] != junk || raw[G + n + i] != junk) return false;
		return true;
	}
};
template <class T> struct A : Arr
{
	A(size_t count, unsigned char junk) : Arr(count * sizeof(T), junk) {}
	T* p() { return (T*)at(); }
	T& operator[](size_t i) { return p()[i]; }
};
#define INPUT(X) REQUIREM((X).unchanged() && (X).guards(), #X " is an input and was written to")
#define GUARDED(X) REQUIREM((X).guards(), "written outside of " #X)
static const unsigned char JUNK[2] = {0x5a, 0xff};

static bool sameBytes(Arr& a, Arr& b) { return a.n == b.n && (a.n == 0 || memcmp(a.at(), b.at(), a.n) == 0); }

// ---- linear systems -----------------------------------------------------------------
template <class R> static void system(Case& c, std::vector<R>& a, std::vector<R>& b, std::vector<R>& d, int n)
{
	int kind = int(c.draw(4));
	for (int i = 0; i < n; i++)
	{
		a.push_back(kind < 2 ? grid<R>(c) : real<R>(c, -2, 2));
		d.push_back(kind < 2 ? grid<R>(c) : real<R>(c, -2, 2));
		b.push_back(kind == 0 ? grid<R>(c) : kind == 1 ? R(4) : real<R>(c, -2, 5));
	}
	// a pivot that vanishes at a chosen place
	if (c.oneIn(3))
	{
		int at = int(c.draw(uint64_t(n)));
		if (at == 0) b[0] = 0;
		else { b[size_t(at)] = 0; a[size_t(at) - 1] = 0; }
	}
}

template <class R, class V> static void triDiagonal(Case& c, const std::vector<R>& a, const std::vector<R>& b, const std::vector<R>& d, const std::vector<V>& r, bool cyclic, R alpha, R beta)
{
	size_t n = b.size();
	std::vector<std::unique_ptr<A<V>>> out;
	bool res[2];
	for (int k = 0; k < 2; k++)
	{
		A<R> lo(n - 1, JUNK[k]), di(n, JUNK[k]), up(n - 1, JUNK[k]);
		A<V> rhs(n, JUNK[k]);
		out.emplace_back(new A<V>(n, JUNK[k]));
		A<V>& u = *out.back();
		for (size_t i = 0; i < n; i++) { if (i + 1 < n) { lo[i] = a[i]; up[i] = d[i]; } di[i] = b[i]; rhs[i] = r[i]; }
		lo.snap(); di.snap(); up.snap(); rhs.snap();
		bool ok = false;
		watch(c, [&]
		{
			if constexpr (std::is_same<R, V>::value)
			{
				if (cyclic) { ok = TriDiagonal<R>::solveCyclic(lo.p(), di.p(), up.p(), alpha, beta, rhs.p(), u.p(), int(n)); return; }
			}
			ok = TriDiagonal<R>::solve(lo.p(), di.p(), up.p(), rhs.p(), u.p(), int(n));
		});
		INPUT(lo); INPUT(di); INPUT(up); INPUT(rhs); GUARDED(u);
		res[k] = ok;
	}
	c.label(res[0] ? "regular" : "singular");
	REQUIREM(res[0] == res[1], "the answer depends on what lies beside the arrays");
	if (res[0]) REQUIREM(sameBytes(*out[0], *out[1]), "the solution depends on what lies beside the arrays or was in the result before");
}

LAW(triDiagonal, 1)
{
	int n = 1 + int(c.draw(c.flip() ? 4 : 24));
	std::vector<Real> a, b, d, r;
	system(c, a, b, d, n);
	for (int i = 0; i < n; i++) r.push_back(real<Real>(c, -3, 3));
	c.show("n", n);
	triDiagonal<Real, Real>(c, a, b, d, r, false, 0, 0);
}

LAW(triDiagonalVectors, 1)
{
	int n = 1 + int(c.draw(c.flip() ? 4 : 24));
	std::vector<Real> a, b, d;
	std::vector<Vec3<Real>> r;
	system(c, a, b, d, n);
	for (int i = 0; i < n; i++) r.push_back(vec3<Real>(c, -3, 3));
	c.show("n", n);
	triDiagonal<Real, Vec3<Real>>(c, a, b, d, r, false, 0, 0);
}

LAW(cyclic, 1)
{
	int n = 1 + int(c.draw(c.flip() ? 5 : 24));
	std::vector<Real> a, b, d, r;
	system(c, a, b, d, n);
	if (b[0] == 0) b[0] = 1;                    // not supported by the method
	for (int i = 0; i < n; i++) r.push_back(real<Real>(c, -3, 3));
	Real alpha = c.draw(3) ? grid<Real>(c) : Real(0), beta = c.draw(3) ? grid<Real>(c) : Real(0);
	c.show("n", n); c.show("alpha", alpha); c.show("beta", beta);
	triDiagonal<Real, Real>(c, a, b, d, r, true, alpha, beta);
}

template <class R, class V> static void gauss(Case& c, const std::vector<R>& m, size_t n, const std::vector<V>& r, int columns)
{
	std::vector<std::unique_ptr<A<V>>> out;
	std::vector<std::unique_ptr<A<R>>> inv;
	bool res[2];
	for (int k = 0; k < 2; k++)
	{
		inv.emplace_back(new A<R>(n * n, JUNK[k]));
		out.emplace_back(new A<V>(r.size(), JUNK[k]));
		A<R>& a = *inv.back();
		A<V>& b = *out.back();
		for (size_t i = 0; i < n * n; i++) a[i] = m[i];
		for (size_t i = 0; i < r.size(); i++) b[i] = r[i];
		bool ok = false;
		watch(c, [&]
		{
			if constexpr (std::is_same<R, V>::value) ok = GaussJordan<R>::solve(a.p(), int(n), b.p(), columns);
			else ok = GaussJordan<R>::solve(a.p(), int(n), b.p());
		});
		GUARDED(a); GUARDED(b);
		res[k] = ok;
	}
	c.label(res[0] ? "regular" : "singular");
	REQUIREM(res[0] == res[1] && sameBytes(*out[0], *out[1]) && sameBytes(*inv[0], *inv[1]), "the solution depends on what lies beside the arrays");
}

LAW(gaussJordan, 1.5)
{
	size_t n = 1 + size_t(c.draw(c.flip() ? 4 : 10));
	bool simple = c.flip();
	std::vector<Real> m;
	for (size_t i = 0; i < n * n; i++) m.push_back(simple ? grid<Real>(c, 2) : real<Real>(c, -3, 3));
	if (c.oneIn(3)) { size_t at = size_t(c.draw(n)); for (size_t i = 0; i < n; i++) (c.flip() ? m[at * n + i] : m[i * n + at]) = 0; }
	c.show("n", n);
	switch (c.draw(3))
	{
	case 0:
	{
		int columns = int(c.draw(5));
		std::vector<Real> r;
		for (size_t i = 0; i < n * size_t(columns); i++) r.push_back(real<Real>(c, -3, 3));
		gauss<Real, Real>(c, m, n, r, columns);
		break;
	}
	case 1:
	{
		std::vector<Vec2<Real>> r;
		for (size_t i = 0; i < n; i++) r.push_back(vec2<Real>(c, -3, 3));
		gauss<Real, Vec2<Real>>(c, m, n, r, 2);
		break;
	}
	default:
	{
		std::vector<Vec3<Real>> r;
		for (size_t i = 0; i < n; i++) r.push_back(vec3<Real>(c, -3, 3));
		gauss<Real, Vec3<Real>>(c, m, n, r, 3);
	}
	}
}

LAW(splines, 1.5)
{
	int n = 2 + int(c.draw(c.flip() ? 4 : 22));
	int kind = int(c.draw(3));
	std::vector<Vec3<Real>> pts;
	for (int i = 0; i < n; i++) pts.push_back(vec3<Real>(c, -3, 3));
	Vec3<Real> first = vec3<Real>(c, -3, 3), last = vec3<Real>(c, -3, 3);
	size_t segments = size_t(kind == 2 ? n : n - 1);
	c.show("n", n); c.show("kind", kind);
	c.label(kind == 0 ? "natural" : kind == 1 ? "clamped" : "closed");
	std::vector<std::unique_ptr<A<Vec3<Real>>>> out;
	bool res[2];
	for (int k = 0; k < 2; k++)
	{
		A<Vec3<Real>> p1(size_t(n), JUNK[k]);
		for (int i = 0; i < n; i++) p1[size_t(i)] = pts[size_t(i)];
		p1.snap();
		out.emplace_back(new A<Vec3<Real>>(segments, JUNK[k]));
		out.emplace_back(new A<Vec3<Real>>(segments, JUNK[k]));
		A<Vec3<Real>>& p2 = *out[out.size() - 2];
		A<Vec3<Real>>& p3 = *out[out.size() - 1];
		bool ok = false;
		watch(c, [&]
		{
			ok = kind == 0 ? SplineSolver3<Real>::naturalBezierSpline(n, p1.p(), p2.p(), p3.p())
				: kind == 1 ? SplineSolver3<Real>::bezierSpline(n, p1.p(), first, last, p2.p(), p3.p())
				: SplineSolver3<Real>::closedBezierSpline(n, p1.p(), p2.p(), p3.p());
		});
		INPUT(p1); GUARDED(p2); GUARDED(p3);
		res[k] = ok;
	}
	REQUIREM(res[0] == res[1], "the answer depends on what lies beside the arrays");
	if (res[0]) REQUIREM(sameBytes(*out[0], *out[2]) && sameBytes(*out[1], *out[3]), "the control points depend on what lies beside the arrays or was in the results before");
}

// ---- batches ------------------------------------------------------------------------
// count elements of V, `stride` bytes apart, in an array that ends with the last one
template <class V> struct Strided : Arr
{
	size_t count, stride;
	static size_t bytes(size_t count, size_t stride) { return count ? (count - 1) * stride + sizeof(V) : 0; }
	Strided(size_t count_, size_t stride_, unsigned char junk) : Arr(bytes(count_, stride_), junk), count(count_), stride(stride_) {}
	V* p() { return (V*)at(); }
	V& operator[](size_t i) { return *(V*)(at() + i * stride); }
	bool gaps()
	{
		for (size_t i = 0; i + 1 < count; i++)
			for (size_t k = sizeof(V); k < stride; k++) if (at()[i * stride + k] != junk) return false;
		return true;
	}
};
template <class V> static size_t anyStride(Case& c) { return sizeof(V) + sizeof(typename V::Real) * size_t(c.draw(4)); }

template <class M, class V, class F> static void batch(Case& c, const M& m, const std::vector<V>& in, size_t ds, size_t ss, bool strided, F&& call)
{
	std::vector<std::unique_ptr<Strided<V>>> out;
	for (int k = 0; k < 2; k++)
	{
		Strided<V> src(in.size(), ss, JUNK[k]);
		for (size_t i = 0; i < in.size(); i++) src[i] = in[i];
		src.snap();
		out.emplace_back(new Strided<V>(in.size(), ds, JUNK[k]));
		Strided<V>& dst = *out.back();
		M copy(m);
		watch(c, [&] { call(copy, dst.p(), src.p(), in.size(), ds, ss, strided); });
		INPUT(src); GUARDED(dst);
		REQUIREM(dst.gaps(), "written between the elements of the result");
	}
	for (size_t i = 0; i < in.size(); i++) REQUIREM(memcmp(&(*out[0])[i], &(*out[1])[i], sizeof(V)) == 0, "element " + std::to_string(i) + " depends on what lies beside the arrays or was in the result before");
	c.nontrivial(strided && in.size() > 1);
}
#define CALL(NAME) [](auto& m_, auto* d_, auto* s_, size_t n_, size_t ds_, size_t ss_, bool st_) { if (st_) m_.NAME(d_, s_, n_, ds_, ss_); else m_.NAME(d_, s_, n_); }

LAW(batches, 1.5)
{
	size_t n = size_t(c.draw(10));
	bool st = c.draw(4) != 0;
	c.show("count", n);
	std::vector<Vec2<Real>> v2; std::vector<Vec3<Real>> v3; std::vector<Vec4<Real>> v4;
	int kind = int(c.draw(7));
	for (size_t i = 0; i < n; i++)
	{
		if (kind == 0) v2.push_back(vec2<Real>(c, -3, 3));
		else if (kind < 5) v3.push_back(vec3<Real>(c, -3, 3));
		else v4.push_back(vec4<Real>(c, -3, 3));
	}
	size_t d2 = st ? anyStride<Vec2<Real>>(c) : 0, s2 = st ? anyStride<Vec2<Real>>(c) : 0;
	if (kind == 0) batch(c, anyMat2<Real>(c, 1), v2, st ? d2 : sizeof(Vec2<Real>), st ? s2 : sizeof(Vec2<Real>), st, CALL(transform));
	size_t d3 = st ? d2 + sizeof(Real) : sizeof(Vec3<Real>), s3 = st ? s2 + sizeof(Real) : sizeof(Vec3<Real>);
	size_t d4 = st ? d2 + 2 * sizeof(Real) : sizeof(Vec4<Real>), s4 = st ? s2 + 2 * sizeof(Real) : sizeof(Vec4<Real>);
	switch (kind)
	{
	case 1: batch(c, anyMat3<Real>(c, 1), v3, d3, s3, st, CALL(transform)); break;
	case 2: batch(c, anyMat34<Real>(c, 1), v3, d3, s3, st, CALL(transform)); break;
	case 3: batch(c, anyMat4<Real>(c, true, 1), v3, d3, s3, st, CALL(transform)); break;
	case 4: batch(c, anyMat4<Real>(c, true, 1), v3, d3, s3, st, CALL(transformVector)); break;
	case 5: batch(c, anyMat4<Real>(c, true, 1), v4, d4, s4, st, CALL(transform)); break;
	case 6: batch(c, anyMat4<Real>(c, true, 1), v4, d4, s4, st, CALL(transformVector)); break;
	default: break;
	}
}

template <class V, class Body> static void hull(Case& c, const std::vector<V>& pts, size_t stride, bool strided, const char* name)
{
	c.label(name);
	unsigned char got[2][sizeof(Body)];
	for (int k = 0; k < 2; k++)
	{
		Strided<V> src(pts.size(), strided ? stride : sizeof(V), JUNK[k]);
		for (size_t i = 0; i < pts.size(); i++) src[i] = pts[i];
		src.snap();
		Body b;
		memset((void*)&b, 0, sizeof b);
		watch(c, [&] { if (strided) b.set(int(pts.size()), src.p(), int(stride)); else b.set(int(pts.size()), src.p()); });
		INPUT(src);
		memcpy(got[k], (void*)&b, sizeof b);
	}
	REQUIREM(memcmp(got[0], got[1], sizeof(Body)) == 0, "the result depends on what lies beside the points");
	c.nontrivial(strided && pts.size() > 1);
}

LAW(pointSets, 1)
{
	size_t n = 1 + size_t(c.draw(9));
	bool st = c.draw(4) != 0;
	int kind = int(c.draw(3));
	c.show("count", n); c.show("kind", kind);
	size_t gap = size_t(c.draw(4)) * sizeof(Real);
	if (c.flip())
	{
		typedef Vec2<Real> V;
		std::vector<V> p;
		for (size_t i = 0; i < n; i++) p.push_back(vec2<Real>(c, -3, 3));
		if (kind == 0) hull<V, AABB2<Real>>(c, p, sizeof(V) + gap, st, "box");
		else if (kind == 1) hull<V, CAABB2<Real>>(c, p, sizeof(V) + gap, st, "centred box");
		else hull<V, Circle<Real>>(c, p, sizeof(V) + gap, st, "circle");
	}
	else
	{
		typedef Vec3<Real> V;
		std::vector<V> p;
		for (size_t i = 0; i < n; i++) p.push_back(vec3<Real>(c, -3, 3));
		if (kind == 0) hull<V, AABB3<Real>>(c, p, sizeof(V) + gap, st, "box");
		else if (kind == 1) hull<V, CAABB3<Real>>(c, p, sizeof(V) + gap, st, "centred box");
		else hull<V, Sphere<Real>>(c, p, sizeof(V) + gap, st, "sphere");
	}
}
