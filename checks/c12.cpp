// C12: transforms of arrays
#include "mats.h"
#include <memory>
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C12";
const char* pbt::RULE = "counts 0 to 9, input and output strides from the element size (tightly packed) up to 64 bytes more, a zero input stride, separate and shared buffers, "
	"every array overload of the 2x2, 3x3, 3x4 and 4x4 transforms, buffers of exactly the addressed size; non-trivial: at least two elements and a transform that is not the identity";

// a heap block of exactly n bytes, so that the sanitized build sees any access outside it
struct Block
{
	std::unique_ptr<unsigned char[]> p;
	size_t n;
	explicit Block(size_t n_) : p(new unsigned char[n_ ? n_ : 1]), n(n_) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(0xa5 + 31 * i); }
	Block(const Block& b) : p(new unsigned char[b.n ? b.n : 1]), n(b.n) { memcpy(p.get(), b.p.get(), n); }
};

template <class R> static Vec2<R> drawV(Case& c, const Vec2<R>*) { return vec2<R>(c); }
template <class R> static Vec3<R> drawV(Case& c, const Vec3<R>*) { return vec3<R>(c); }
template <class R> static Vec4<R> drawV(Case& c, const Vec4<R>*) { return vec4<R>(c); }
template <class R> static void nearV(Case& c, const Vec2<R>& a, const NVec<2, R>& r) { typedef R Real; NEAR2(a, v2of(r)); }
template <class R> static void nearV(Case& c, const Vec3<R>& a, const NVec<3, R>& r) { typedef R Real; NEAR3(a, v3of(r)); }
template <class R> static void nearV(Case& c, const Vec3<R>& a, const NVec<4, R>& r) { typedef R Real; NEAR3(a, v3of(r)); }
template <class R> static void nearV(Case& c, const Vec4<R>& a, const NVec<4, R>& r) { typedef R Real; NEAR4(a, v4of(r)); }

// single: transforms one element; packed: contiguous overload; strided: overload with strides; ref: reference image
template <class V, class Single, class Packed, class Strided, class Ref>
static void bulk(Case& c, bool identity, Single single, Packed packed, Strided strided, Ref ref)
{
	typedef typename V::Real R;
	size_t n = size_t(gen::count(c, 0, 9, 70));
	c.show("count", n);
	c.nontrivial(n > 1 && !identity);
	std::vector<V> in;
	for (size_t i = 0; i < n; i++) { in.push_back(drawV(c, (const V*)nullptr)); c.show("in", gen::s(in[i])); }
	std::vector<V> one(n);
	for (size_t i = 0; i < n; i++) { single(one[i], in[i]); nearV(c, one[i], ref(in[i])); }
	// in place, one element
	if (n) { V x = in[0]; single(x, x); nearV(c, x, ref(in[0])); }

	auto sameOr = [&](const V& got, size_t i) { nearV(c, got, ref(in[i])); };
	bool inPlace = c.flip();
	c.show("in place", inPlace);
	if (c.oneIn(3))
	{
		c.label("contiguous");
		Block src(n * sizeof(V)), dst(n * sizeof(V) * 1);
		V* s = (V*)src.p.get();
		for (size_t i = 0; i < n; i++) s[i] = in[i];
		V* d = inPlace ? s : (V*)dst.p.get();
		packed(d, s, n);
		for (size_t i = 0; i < n; i++) sameOr(d[i], i);
		if (!inPlace) for (size_t i = 0; i < n; i++) REQUIREM(s[i] == in[i], "the input is modified");
		return;
	}
	c.label("strided");
	size_t ss = sizeof(V) + sizeof(R) * (c.oneIn(3) ? 0 : c.draw(64 / sizeof(R) + 1)), ds = sizeof(V) + sizeof(R) * (c.oneIn(3) ? 0 : c.draw(64 / sizeof(R) + 1));
	bool broadcast = !inPlace && c.oneIn(8);
	if (broadcast) { ss = 0; c.label("zero input stride"); }
	if (inPlace) ds = ss;
	c.show("dest stride", ds); c.show("source stride", ss);
	size_t sn = n ? (n - 1) * ss + sizeof(V) : 0, dn = n ? (n - 1) * ds + sizeof(V) : 0;
	Block src(sn);
	for (size_t i = 0; i < n; i++) if (!broadcast || i == 0) { V v = in[i]; memcpy(src.p.get() + i * ss, &v, sizeof(V)); }
	Block dst(dn), src0(src), dst0(dst);
	unsigned char* d = inPlace ? src.p.get() : dst.p.get();
	const unsigned char* d0 = inPlace ? src0.p.get() : dst0.p.get();
	strided((V*)d, (const V*)src.p.get(), n, ds, ss);
	for (size_t i = 0; i < n; i++)
	{
		V got(R(0));
		memcpy(&got, d + i * ds, sizeof(V));
		sameOr(got, broadcast ? 0 : i);
		if (i + 1 < n) REQUIREM(memcmp(d + i * ds + sizeof(V), d0 + i * ds + sizeof(V), ds - sizeof(V)) == 0, "bytes between the output elements are modified");
	}
	if (!inPlace) REQUIREM(memcmp(src.p.get(), src0.p.get(), sn) == 0, "the input is modified");
	// disjoint results equal those of the contiguous form
	if (n && !broadcast)
	{
		std::vector<V> out(n);
		packed(out.data(), in.data(), n);
		for (size_t i = 0; i < n; i++) sameOr(out[i], i);
	}
}

LAW(mat2, 1)
{
	typedef Vec2<Real> V;
	Mat2<Real> m = anyMat2<Real>(c, 1);
	SHOWV(m);
	NMat<2, Real> A = exact(m);
	bulk<V>(c, m.isIdentity(), [&](V& d, const V& s) { m.transform(d, s); }, [&](V* d, const V* s, size_t n) { m.transform(d, s, n); },
		[&](V* d, const V* s, size_t n, size_t ds, size_t ss) { m.transform(d, s, n, ds, ss); }, [&](const V& v) { return mul(A, nv(v)); });
}
LAW(mat3, 1)
{
	typedef Vec3<Real> V;
	Mat3<Real> m = anyMat3<Real>(c, 1);
	SHOWV(m);
	NMat<3, Real> A = exact(m);
	bulk<V>(c, m.isIdentity(), [&](V& d, const V& s) { m.transform(d, s); }, [&](V* d, const V* s, size_t n) { m.transform(d, s, n); },
		[&](V* d, const V* s, size_t n, size_t ds, size_t ss) { m.transform(d, s, n, ds, ss); }, [&](const V& v) { return mul(A, nv(v)); });
}
LAW(mat34, 1)
{
	typedef Vec3<Real> V;
	Mat34<Real> m = anyMat34<Real>(c, 1);
	SHOWV(m);
	NMat<4, Real> A = exact(m);
	bulk<V>(c, m.isIdentity(), [&](V& d, const V& s) { m.transform(d, s); }, [&](V* d, const V* s, size_t n) { m.transform(d, s, n); },
		[&](V* d, const V* s, size_t n, size_t ds, size_t ss) { m.transform(d, s, n, ds, ss); }, [&](const V& v) { return mul(A, nv(v, 1)); });
}
LAW(mat4points, 1)
{
	typedef Vec3<Real> V;
	Mat4<Real> m = anyMat4<Real>(c, c.flip(), 1);
	SHOWV(m);
	NMat<4, Real> A = exact(m);
	bulk<V>(c, m.isIdentity(), [&](V& d, const V& s) { m.transform(d, s); }, [&](V* d, const V* s, size_t n) { m.transform(d, s, n); },
		[&](V* d, const V* s, size_t n, size_t ds, size_t ss) { m.transform(d, s, n, ds, ss); }, [&](const V& v) { return mul(A, nv(v, 1)); });
}
LAW(mat4vectors, 1)
{
	typedef Vec3<Real> V;
	Mat4<Real> m = anyMat4<Real>(c, c.flip(), 1);
	SHOWV(m);
	NMat<4, Real> A = exact(m);
	bulk<V>(c, m.isIdentity(), [&](V& d, const V& s) { m.transformVector(d, s); }, [&](V* d, const V* s, size_t n) { m.transformVector(d, s, n); },
		[&](V* d, const V* s, size_t n, size_t ds, size_t ss) { m.transformVector(d, s, n, ds, ss); }, [&](const V& v) { return mul(A, nv(v, 0)); });
}
LAW(mat4full, 1)
{
	typedef Vec4<Real> V;
	Mat4<Real> m = anyMat4<Real>(c, c.flip(), 1);
	SHOWV(m);
	NMat<4, Real> A = exact(m);
	bulk<V>(c, m.isIdentity(), [&](V& d, const V& s) { m.transform(d, s); }, [&](V* d, const V* s, size_t n) { m.transform(d, s, n); },
		[&](V* d, const V* s, size_t n, size_t ds, size_t ss) { m.transform(d, s, n, ds, ss); }, [&](const V& v) { return mul(A, nv(v)); });
}
LAW(mat4fullVectors, 1)
{
	typedef Vec4<Real> V;
	Mat4<Real> m = anyMat4<Real>(c, c.flip(), 1);
	SHOWV(m);
	NMat<4, Real> A = exact(m);
	bulk<V>(c, m.isIdentity(), [&](V& d, const V& s) { m.transformVector(d, s); }, [&](V* d, const V* s, size_t n) { m.transformVector(d, s, n); },
		[&](V* d, const V* s, size_t n, size_t ds, size_t ss) { m.transformVector(d, s, n, ds, ss); },
		[&](const V& v) { return mul(A, nv(V(v.x, v.y, v.z, Real(0)))); });
}
