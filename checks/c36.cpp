// C36: arguments that are parts of the target
#include "mats.h"
#include "quats.h"
#include "boxes.h"
#include "flat.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C36";
const char* pbt::RULE = "targets of every type that has setters or in-place operations, drawn as in the checks of that type; every operation applied twice, to a target whose arguments are references to its own "
	"members, columns, corners, points or itself, in every order, and to an equal target whose arguments belong to a copy; non-trivial: the operation changes the target";

// the other, unaliased operands
template <class R> struct Aux
{
	R k, w, turn;
	int i, j, l, n;      // which own parts
	int stride;
	Coord co, cb;
	bool two;
	Vec3<R> v3; Vec2<R> v2;
};
template <class R> Aux<R> aux(Case& c)
{
	Aux<R> a;
	a.k = nonzero<R>(c, -3, 3); a.w = unit01<R>(c); a.turn = angle<R>(c);
	a.i = int(c.draw(4)); a.j = int(c.draw(4)); a.l = int(c.draw(4)); a.n = int(c.draw(4));
	a.stride = int(c.draw(3));
	static const Coord t[3] = {Coord::X, Coord::Y, Coord::Z};
	int p = int(c.draw(3)); a.co = t[p]; a.cb = t[(p + 1 + int(c.draw(2))) % 3];
	a.two = c.flip();
	a.v3 = nonzero3<R>(c, -3, 3); a.v2 = nonzero2<R>(c, -3, 3);
	c.show("k", a.k); c.show("w", a.w); c.show("turn", a.turn);
	c.show("own parts", std::to_string(a.i) + std::to_string(a.j) + std::to_string(a.l) + std::to_string(a.n));
	return a;
}

template <class T> struct Op { const char* name; void (*fn)(T& t, const T& s, const T& o, const Aux<typename T::Real>& a); };
#define OP(CODE) {#CODE, [](auto& t, const auto& s, const auto& o, const auto& a) { (void)t; (void)s; (void)o; (void)a; CODE; }}

// the same operation on t with the arguments in a copy, and on u with the arguments in u itself
template <class T, size_t N> void alias(Case& c, const T& v, const T& o, const Op<T> (&ops)[N])
{
	typedef typename T::Real R;
	Aux<R> a = aux<R>(c);
	const Op<T>& op = ops[c.draw(N)];
	c.label(op.name); c.show("operation", op.name);
	T t(v); const T s(v); T u(v);
	op.fn(t, s, o, a);
	op.fn(u, u, o, a);
	Flat f, g, h;
	flat(f, t); flat(g, u); flat(h, v);
	c.show("target", text(h)); c.show("from a copy", text(f)); c.show("from itself", text(g));
	c.nontrivial(f != h);
	LD m = 0, mv = 0;
	for (LD x : f) m = std::max(m, fabsl(x));
	for (LD x : h) mv = std::max(mv, fabsl(x));
	// exact but where the library may compute a product with itself in another order
	LD tol = 64 * Num<R>::u() * std::max(m, std::max(mv * mv, mv));
	bool same = true;
	for (size_t i = 0; i < f.size(); i++)
	{
		if (f[i] != f[i] && g[i] != g[i]) continue;
		if (f[i] != g[i]) same = false;
		c.nCompared++;
		if (!(f[i] == g[i] || fabsl(f[i] - g[i]) <= tol))
			pbt::failWith(std::string("line ") + std::to_string(__LINE__) + ": with arguments from the target itself the result is " + text(g) + ", with the same arguments from a copy " + text(f));
	}
	if (same) REQUIREM(says(t) == says(u), "classified " + std::to_string(says(u)) + " instead of " + std::to_string(says(t)));
}

// own parts
template <class R> R part(const Vec2<R>& v, int i) { return i & 1 ? v.y : v.x; }
template <class R> R part(const Vec3<R>& v, int i) { return i == 1 ? v.y : i == 2 ? v.z : v.x; }
template <class R> R part(const Vec4<R>& v, int i) { return i == 1 ? v.y : i == 2 ? v.z : i == 3 ? v.w : v.x; }
template <class R> R part(const ColorRGB<R>& v, int i) { return i == 1 ? v.g : i == 2 ? v.b : v.r; }
template <class R> R part(const ColorRGBA<R>& v, int i) { return i == 1 ? v.g : i == 2 ? v.b : i == 3 ? v.a : v.r; }
template <class R> R part(const ColorHSV<R>& v, int i) { return i == 1 ? v.s : i == 2 ? v.v : v.h; }
template <class R> R part(const Quat<R>& v, int i) { return i == 1 ? v.y : i == 2 ? v.z : i == 3 ? v.w : v.x; }
template <class R> const Vec2<R>& part(const Mat2<R>& m, int i) { return i & 1 ? m.y : m.x; }
template <class R> const Vec3<R>& part(const Mat3<R>& m, int i) { return i == 1 ? m.y : i == 2 ? m.z : m.x; }
template <class R> const Vec3<R>& part(const Mat34<R>& m, int i) { return i == 3 ? m.t : part(m.rs, i); }
template <class R> const Vec4<R>& part(const Mat4<R>& m, int i) { return i == 1 ? m.y : i == 2 ? m.z : i == 3 ? m.t : m.x; }
template <class R> const Vec2<R>& part(const AABB2<R>& b, int i) { return i & 1 ? b.sup : b.inf; }
template <class R> const Vec3<R>& part(const AABB3<R>& b, int i) { return i & 1 ? b.sup : b.inf; }
template <class R> const Vec2<R>& part(const CAABB2<R>& b, int i) { return i & 1 ? b.extents : b.center; }
template <class R> const Vec3<R>& part(const CAABB3<R>& b, int i) { return i & 1 ? b.extents : b.center; }
template <class R> const Vec3<R>& part(const HermiteSplineSegment3<R>& b, int i) { return i == 0 ? b.p1() : i == 1 ? b.p4() : i == 2 ? b.r1() : b.r4(); }
template <class R> const Vec3<R>& part(const BezierSegment3<R>& b, int i) { return i == 0 ? b.p1() : i == 1 ? b.p2() : i == 2 ? b.p3() : b.p4(); }

// an operand that is often the target or its part and sometimes another one
#define OWN(A, B, WHICH) ((WHICH) ? (A) : (B))

LAW(vectors2, 1)
{
	typedef Vec2<Real> V;
	V v = nonzero2<Real>(c), o = nonzero2<Real>(c);
	static const Op<V> ops[] = {
		OP(t += s), OP(t -= s), OP(t = s), OP(t.set(s)), OP(t *= part(s, a.i)), OP(if (part(s, a.i) != 0) t /= part(s, a.i)),
		OP(t.set(part(s, a.i), part(s, a.j))), OP(t.set(a.co == Coord::X ? Coord::X : Coord::Y, part(s, a.i))), OP(t.setAngle(part(s, a.i), part(s, a.j))),
		OP(t.normalize(part(s, a.i))), OP(t.rotate(part(s, a.i))),
		OP(t.clerp(s, o, a.w)), OP(t.clerp(o, s, a.w)), OP(t.clerp(s, s, a.w)), OP(t.clerpMaxAngle(o, s, a.two ? a.w : a.w * 4)),
		OP(t.clerpMaxAngle(s, o, a.w)), OP(t.clerpMaxAngle(o, s, a.w)), OP(t.clerpMaxAngle(s, s, a.w)),
	};
	alias(c, v, o, ops);
}

LAW(vectors3, 1)
{
	typedef Vec3<Real> V;
	V v = nonzero3<Real>(c), o = nonzero3<Real>(c);
	static const Op<V> ops[] = {
		OP(t += s), OP(t -= s), OP(t = s), OP(t.set(s)), OP(t *= part(s, a.i)), OP(if (part(s, a.i) != 0) t /= part(s, a.i)), OP(t %= s),
		OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l))), OP(t.set(a.co, part(s, a.i))),
		OP(t.normalize(part(s, a.i))), OP(t.rotate(a.co, part(s, a.i))),
		OP(t.slerp(s, o, a.w)), OP(t.slerp(o, s, a.w)), OP(t.slerp(s, s, a.w)), OP(t.slerpMaxAngle(o, s, a.two ? a.w : a.w * 4)),
		OP(t.slerpMaxAngle(s, o, a.w)), OP(t.slerpMaxAngle(o, s, a.w)), OP(t.slerpMaxAngle(s, s, a.w)),
	};
	alias(c, v, o, ops);
}

LAW(vectors4, 0.6)
{
	typedef Vec4<Real> V;
	V v = vec4<Real>(c), o = vec4<Real>(c);
	static const Op<V> ops[] = {
		OP(t += s), OP(t -= s), OP(t = s), OP(t.set(s)), OP(t *= part(s, a.i)), OP(if (part(s, a.i) != 0) t /= part(s, a.i)),
		OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(a.co, part(s, a.i))), OP(t.set(a.v3, part(s, a.i))),
	};
	alias(c, v, o, ops);
}

// a vector that is a column of the matrix it is multiplied by
LAW(columnTimesMatrix, 0.5)
{
	if (c.flip())
	{
		Mat2<Real> m = baseMat2<Real>(c);
		int i = int(c.draw(2));
		Mat2<Real> k(m);
		Vec2<Real> v = part(k, i);
		v *= m;
		Vec2<Real>& w = i ? k.y : k.x;
		c.show("matrix", gen::s(m)); c.show("column", i);
		w *= k;
		c.nontrivial(!(v == part(m, i)));
		SAME2(w, v);
	}
	else
	{
		Mat3<Real> m = baseMat3<Real>(c);
		int i = int(c.draw(3));
		Mat3<Real> k(m);
		Vec3<Real> v = part(k, i);
		v *= m;
		Vec3<Real>& w = i == 1 ? k.y : i == 2 ? k.z : k.x;
		c.show("matrix", gen::s(m)); c.show("column", i);
		w *= k;
		c.nontrivial(!(v == part(m, i)));
		SAME3(w, v);
	}
}

LAW(matrices2, 1)
{
	typedef Mat2<Real> M;
	M v = baseMat2<Real>(c), o = baseMat2<Real>(c);
	int n = int(c.draw(3));
	for (int i = 0; i < n; i++) stepMat2<Real>(c, v);
	if (!sane(v)) pbt::discard();
	static const Op<M> ops[] = {
		OP(t = s), OP(t.set(s)), OP(t.set(part(s, a.i), part(s, a.j))), OP(t.set(part(s, a.i), a.v2)), OP(t.set(a.v2, part(s, a.i))),
		OP(t *= s), OP(t *= part(s.x, a.i)), OP(t *= part(s.y, a.i)), OP(if (part(s.x, a.i) != 0) t /= part(s.x, a.i)), OP(if (part(s.y, a.i) != 0) t /= part(s.y, a.i)),
		OP(t.scale(part(s, a.i))), OP(t.scale(part(s, a.i))), OP(t.rotate(part(part(s, a.i), a.j))), OP(t.rotatePre(part(part(s, a.i), a.j))), OP(t.set(part(part(s, a.i), a.j))),
	};
	alias(c, v, o, ops);
}

// turning between rotations, the target being one of them
LAW(rotations2, 0.4)
{
	typedef Mat2<Real> M;
	M v = M::from(angle<Real>(c)), o = M::from(angle<Real>(c));
	static const Op<M> ops[] = {
		OP(t.slerp(s, o, a.w)), OP(t.slerp(o, s, a.w)), OP(t.slerp(s, s, a.w)),
		OP(t.slerpMaxAngle(s, o, a.w)), OP(t.slerpMaxAngle(o, s, a.w)), OP(t.slerpMaxAngle(s, s, a.w)),
	};
	alias(c, v, o, ops);
}

LAW(matrices3, 1)
{
	typedef Mat3<Real> M;
	M v = anyMat3<Real>(c), o = baseMat3<Real>(c);
	static const Op<M> ops[] = {
		OP(t = s), OP(t.set(s)), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l))), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l))), OP(t.set(a.v3, part(s, a.j), part(s, a.l))), OP(t.set(part(s, a.i), a.v3, part(s, a.l))),
		OP(t.set(a.co, part(s, a.i), a.cb, part(s, a.j))), OP(t.set(a.co, a.v3, a.cb, part(s, a.j))), OP(t.set(a.co, part(s, a.i), a.cb, a.v3)),
		OP(t.set(part(s, a.i), a.turn)), OP(t.set(part(s, a.i), part(part(s, a.j), a.l))), OP(t.set(a.co, part(part(s, a.j), a.l))),
		OP(t *= s), OP(t *= part(part(s, a.i), a.j)), OP(if (part(part(s, a.i), a.j) != 0) t /= part(part(s, a.i), a.j)),
		OP(t.scale(part(s, a.i))), OP(t.scale(part(s, a.i))), OP(t.rotate(s)), OP(t.rotatePre(s)), OP(t.rotate(part(s, a.i), a.turn)), OP(t.rotatePre(part(s, a.i), a.turn)),
		OP(t.rotate(part(s, a.i), part(part(s, a.j), a.l))), OP(t.rotatePre(part(s, a.i), part(part(s, a.j), a.l))),
		OP(t.rotate(a.co, part(part(s, a.j), a.l))), OP(t.rotatePre(a.co, part(part(s, a.j), a.l))),
	};
	alias(c, v, o, ops);
}

LAW(rotations3, 0.4)
{
	typedef Mat3<Real> M;
	M v = M::from(unitQuat<Real>(c)), o = M::from(unitQuat<Real>(c));
	static const Op<M> ops[] = {
		OP(t.slerp(s, o, a.w)), OP(t.slerp(o, s, a.w)), OP(t.slerp(s, s, a.w)),
		OP(t.slerpMaxAngle(s, o, a.w)), OP(t.slerpMaxAngle(o, s, a.w)), OP(t.slerpMaxAngle(s, s, a.w)),
	};
	alias(c, v, o, ops);
}

LAW(matrices34, 1.5)
{
	typedef Mat34<Real> M;
	M v = anyMat34<Real>(c), o = anyMat34<Real>(c, 0);
	static const Op<M> ops[] = {
		OP(t = s), OP(t.set(s)), OP(t.set(s.rs, part(s, a.i))), OP(t.set(o.rs, part(s, a.i))), OP(t.set(s.rs, a.v3)),
		OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), a.v3)),
		OP(t.set(a.co, part(s, a.i), a.cb, part(s, a.j))), OP(t.set(a.co, a.v3, a.cb, part(s, a.j))), OP(t.set(a.co, part(s, a.i), a.cb, a.v3)),
		OP(t.set(part(s, a.i), a.turn, part(s, a.j))), OP(t.set(part(s, a.i), part(part(s, a.l), a.n), part(s, a.j))), OP(t.set(a.co, a.turn, part(s, a.j))), OP(t.set(a.co, part(s.t, a.i), part(s, a.j))),
		OP(t.set(Quat<Real>::from(a.v3, a.turn), part(s, a.j))),
		OP(t *= s), OP(t *= s.rs),
		OP(t.scale(part(s, a.i))), OP(t.scalePre(part(s, a.i))), OP(t.translate(part(s, a.i))), OP(t.translatePre(part(s, a.i))),
		OP(t.rotate(part(s, a.i), a.turn)), OP(t.rotatePre(part(s, a.i), a.turn)), OP(t.rotate(part(s, a.i), part(s.t, a.j))), OP(t.rotatePre(part(s, a.i), part(s.t, a.j))),
		OP(t.rotate(a.co, part(part(s, a.i), a.j))), OP(t.rotatePre(a.co, part(part(s, a.i), a.j))),
		OP(t.transform(s)), OP(t.transform(s.rs)), OP(t.transformPre(s)), OP(t.transformPre(s.rs)),
		OP(t.rs.set(part(s, a.i), part(s, a.j), part(s, a.l))), OP(t.rs.scale(part(s, a.i))), OP(t.t += part(s, a.i)), OP(t.t %= part(s, a.i)), OP(t.t *= s.rs),
	};
	alias(c, v, o, ops);
}

LAW(rotations34, 0.4)
{
	typedef Mat34<Real> M;
	M v = M::from(unitQuat<Real>(c), vec3<Real>(c)), o = M::from(unitQuat<Real>(c), vec3<Real>(c));
	static const Op<M> ops[] = {
		OP(t.slerp(s, o, a.w)), OP(t.slerp(o, s, a.w)), OP(t.slerp(s, s, a.w)),
		OP(t.slerpMaxAngle(s, o, a.w)), OP(t.slerpMaxAngle(o, s, a.w)), OP(t.slerpMaxAngle(s, s, a.w)),
		OP(t.rs.slerp(s.rs, o.rs, a.w)), OP(t.rs.slerpMaxAngle(o.rs, s.rs, a.w)),
	};
	alias(c, v, o, ops);
}

LAW(matrices4, 1)
{
	typedef Mat4<Real> M;
	M v = anyMat4<Real>(c, true), o = baseMat4<Real>(c, true);
	static const Op<M> ops[] = {
		OP(t = s), OP(t.set(s)), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))),
		OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(o, a.n))), OP(t.set(part(o, a.i), part(s, a.j), part(s, a.l), part(o, a.n))),
		OP(t *= part(part(s, a.i), a.j)), OP(if (part(part(s, a.i), a.j) != 0) t /= part(part(s, a.i), a.j)), OP(t.transform(s)), OP(t.transformPre(s)),
		OP(t.rotate(a.v3, part(part(s, a.j), a.l))), OP(t.rotatePre(a.v3, part(part(s, a.j), a.l))), OP(t.rotate(a.co, part(part(s, a.j), a.l))), OP(t.rotatePre(a.co, part(part(s, a.j), a.l))),
		OP(t.set(a.v3, part(part(s, a.j), a.l))), OP(t.set(a.co, part(part(s, a.j), a.l))),
	};
	alias(c, v, o, ops);
}

LAW(quaternions, 1)
{
	typedef Quat<Real> Q;
	Q v, o;
	quatPair<Real>(c, v, o);
	static const Op<Q> ops[] = {
		OP(t = s), OP(t.set(s)), OP(t = s * s), OP(t = t * s), OP(t = s / t), OP(t = t / s),
		OP(t.lerp(s, o, a.w)), OP(t.lerp(o, s, a.w)), OP(t.lerp(s, s, a.w)), OP(t.slerp(s, o, a.w)), OP(t.slerp(o, s, a.w)), OP(t.slerp(s, s, a.w)),
		OP(t.slerpNoInvert(s, o, a.w)), OP(t.slerpNoInvert(o, s, a.w)), OP(t.slerpNoInvert(s, s, a.w)),
		OP(t.slerpMaxAngle(s, o, a.w)), OP(t.slerpMaxAngle(o, s, a.w)), OP(t.slerpMaxAngle(s, s, a.w)),
		OP(t.set(a.i & 1 ? s : o, a.j & 1 ? s : o, a.l & 1 ? s : o, a.n & 1 ? s : o, a.w)), OP(t.set(a.i & 1 ? s : o, a.j & 1 ? s : o, a.l & 1 ? s : o, a.n & 1 ? s : o, a.w)),
		OP(t.set(a.i & 1 ? s : o, a.j & 1 ? s : o, a.l & 1 ? s : o)), OP(t.set(a.v3, part(s, a.i))),
	};
	alias(c, v, o, ops);
}

template <class Real> struct Colors;
LAW(colours, 1)
{
	auto ch = [&] { return unit01<Real>(c); };
	switch (c.draw(3))
	{
	case 0:
	{
		typedef ColorRGB<Real> K;
		K v(ch(), ch(), ch()), o(ch(), ch(), ch());
		static const Op<K> ops[] = { OP(t = s), OP(t.set(s)), OP(t += s), OP(t -= s), OP(t *= part(s, a.i)), OP(if (part(s, a.i) != 0) t /= part(s, a.i)), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l))),
			OP(t.interp(s, o, a.w)), OP(t.interp(o, s, a.w)), OP(t.interp(s, s, a.w)), OP(t.interp(o, s, part(s, a.i))), };
		alias(c, v, o, ops);
		break;
	}
	case 1:
	{
		typedef ColorRGBA<Real> K;
		K v(ch(), ch(), ch(), ch()), o(ch(), ch(), ch(), ch());
		static const Op<K> ops[] = { OP(t = s), OP(t.set(s)), OP(t += s), OP(t -= s), OP(t *= part(s, a.i)), OP(if (part(s, a.i) != 0) t /= part(s, a.i)), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))),
			OP(t.interp(s, o, a.w)), OP(t.interp(o, s, a.w)), OP(t.interp(s, s, a.w)), OP(t.interp(o, s, part(s, a.i))), };
		alias(c, v, o, ops);
		break;
	}
	default:
	{
		typedef ColorHSV<Real> K;
		K v(ch(), ch(), ch()), o(ch(), ch(), ch());
		static const Op<K> ops[] = { OP(t = s), OP(t.set(s)), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l))),
			OP(t.interp(s, o, a.w)), OP(t.interp(o, s, a.w)), OP(t.interp(s, s, a.w)), OP(t.interp(o, s, part(s, a.i))), };
		alias(c, v, o, ops);
	}
	}
}

// the vectors of the dimension of the target among the other operands
template <class R> const Vec2<R>& otherPoint(const Aux<R>& a, const AABB2<R>*) { return a.v2; }
template <class R> const Vec2<R>& otherPoint(const Aux<R>& a, const CAABB2<R>*) { return a.v2; }
template <class R> const Vec3<R>& otherPoint(const Aux<R>& a, const AABB3<R>*) { return a.v3; }
template <class R> const Vec3<R>& otherPoint(const Aux<R>& a, const CAABB3<R>*) { return a.v3; }
#define OTHER otherPoint(a, &s)

GEOLAW(cornerBoxes, 0.6)
{
	GEOTYPES;
	Pools<Real> p(c.flip());
	A v = anyBox<T>(c, p), o = anyBox<T>(c, p);
	static const Op<A> ops[] = {
		OP(t = s), OP(t.set(part(s, a.i))), OP(t.set(part(s, a.i), part(s, a.j))), OP(t.set(part(s, a.i), OTHER)), OP(t.set(OTHER, part(s, a.i))),
		OP(t.set(2, &s.inf)), OP(t.set(1, &part(s, a.i))), OP(t.set(2, &s.inf, int(sizeof s.inf))), OP(t.set(1, &part(s, a.i), 8)),
		OP(t.add(part(s, a.i))), OP(t += part(s, a.i)), OP(t -= part(s, a.i)), OP(t *= part(part(s, a.i), a.j)), OP(if (part(part(s, a.i), a.j) != 0) t /= part(part(s, a.i), a.j)), OP(t.scaleCentered(part(part(s, a.i), a.j))),
	};
	alias(c, v, o, ops);
}

GEOLAW(centredBoxes, 0.6)
{
	GEOTYPES;
	Pools<Real> p(c.flip());
	A v0 = anyBox<T>(c, p), o0 = anyBox<T>(c, p);
	B v = T::fromCorners(v0), o = T::fromCorners(o0);
	static const Op<B> ops[] = {
		OP(t = s), OP(t.set(part(s, a.i))), OP(t.set(part(s, a.i), part(s, a.j))), OP(t.set(part(s, a.i), OTHER)), OP(t.set(OTHER, part(s, a.i))),
		OP(t.set(2, &s.center)), OP(t.set(1, &part(s, a.i))), OP(t.set(2, &s.center, int(sizeof s.center))), OP(t.set(1, &part(s, a.i), 8)),
		OP(t.add(part(s, a.i))), OP(t += part(s, a.i)), OP(t -= part(s, a.i)), OP(t *= part(part(s, a.i), a.j)), OP(if (part(part(s, a.i), a.j) != 0) t /= part(part(s, a.i), a.j)),
	};
	alias(c, v, o, ops);
}

GEOLAW(balls, 0.5)
{
	GEOTYPES;
	S v, o;
	v.center = T::vec(c); v.radius = positive<Real>(c); o.center = T::vec(c); o.radius = positive<Real>(c);
	static const Op<S> ops[] = {
		OP(t = s), OP(t.set(s.center, o.radius)), OP(t.set(s.center, s.radius)), OP(t.set(o.center, s.radius)),
		OP(t.set(1, &s.center)), OP(t.set(1, &s.center, 1 + a.stride)),
		OP(t += s.center), OP(t -= s.center), OP(t *= s.radius), OP(if (s.radius != 0) t /= s.radius),
	};
	alias(c, v, o, ops);
}

LAW(planes, 1)
{
	typedef Plane<Real> P;
	P v = P::from(nonzero3<Real>(c), real<Real>(c)), o = P::from(nonzero3<Real>(c), real<Real>(c));
	static const Op<P> ops[] = {
		OP(t = s), OP(t.set(s.normal, s.d)), OP(t.set(s.normal, part(s.normal, a.i))), OP(t.set(a.v3, s.d)), OP(t.set(s.normal, s.normal)), OP(t.set(s.normal, a.v3)), OP(t.set(a.v3, s.normal)),
		OP(t.set(s, a.k)), OP(t.set(s, s.d)), OP(t.set(o, s.d)), OP(t.move(s.d)), OP(t.move(part(s.normal, a.i))),
		OP(t.set(s.normal, o.normal, a.v3)), OP(t.set(o.normal, s.normal, a.v3)), OP(t.set(o.normal, a.v3, s.normal)),
		OP(t.setFromPointAndTangents(s.normal, o.normal, a.v3)), OP(t.setFromPointAndTangents(a.v3, s.normal, o.normal)), OP(t.setFromPointAndTangents(a.v3, o.normal, s.normal)), OP(t.setFromPointAndTangents(s.normal, s.normal, o.normal)),
	};
	alias(c, v, o, ops);
}

LAW(hermite, 0.4)
{
	typedef HermiteSplineSegment3<Real> H;
	auto p = [&] { return vec3<Real>(c); };
	H v(p(), p(), p(), p()), o(v);
	static const Op<H> ops[] = {
		OP(t = s), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(s.p4(), s.p1(), s.r4(), s.r1())), OP(t.set(a.v3, part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), a.v3)),
	};
	alias(c, v, o, ops);
}

LAW(bezier, 0.6)
{
	typedef BezierSegment3<Real> Z;
	auto p = [&] { return vec3<Real>(c); };
	Z v(p(), p(), p(), p()), o(v);
	static const Op<Z> ops[] = {
		OP(t = s), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(s.p4(), s.p3(), s.p2(), s.p1())), OP(t.set(a.v3, part(s, a.j), part(s, a.l), part(s, a.n))), OP(t.set(part(s, a.i), part(s, a.j), part(s, a.l), a.v3)),
		OP(auto q = o; s.split(a.w, t, q)), OP(auto q = o; s.split(a.w, q, t)),
	};
	alias(c, v, o, ops);
}

LAW(frusta, 0.3)
{
	typedef Frustum<Real> F;
	// a truncated pyramid looking down z
	Real n = positive<Real>(c, -2, 2), d = positive<Real>(c, -2, 4), h = positive<Real>(c, -2, 2);
	Vec3<Real> at = vec3<Real>(c, -3, 3), k[8];
	for (int i = 0; i < 8; i++)
	{
		Real z = i & 4 ? n + d : n;
		k[i] = Vec3<Real>(((i + 1) & 2 ? z : -z) * h, (i & 2 ? z : -z) * h, z) + at;
	}
	F v(k), o(v);
	static const Op<F> ops[] = {
		OP(t = s), OP(t.set(s.corners)),
		OP(t.set(Mat34<typename std::decay<decltype(a.k)>::type>::from(a.co, a.turn, s.corners[a.i]), s.corners)),
		OP(t.set(Mat4<typename std::decay<decltype(a.k)>::type>::from(Quat<typename std::decay<decltype(a.k)>::type>::from(a.v3, a.turn), s.corners[a.j]), s.corners)),
	};
	alias(c, v, o, ops);
}
