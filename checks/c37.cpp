// C37: results depend on the arguments and on nothing else
#include "mats.h"
#include "quats.h"
#include "boxes.h"
#include "flat.h"
#include <atomic>
#include <cfenv>
#include <memory>
#include <thread>
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C37";
const char* pbt::RULE = "two independent sets of operands of every type and two mixtures of them, so that sets share some arguments and differ in others; sequences of 2 to 24 operations out of some 200 over these sets, so that the same operation meets "
	"the same, related and unrelated operands again in every order, alone or on four threads at once; non-trivial: some operation occurs with the same operands more than once and with different ones in between";

// ---- operands ----------------------------------------------------------------------
template <class R> struct In
{
	typedef R Real;
	Vec2<R> u2, v2, w2; Vec3<R> u, v, w, axis; Vec4<R> p, q;
	Mat2<R> m2, n2, r2, s2; Mat3<R> m, n, r, s; Mat34<R> a, b, ra, rb; Mat4<R> A, B;
	Quat<R> g, h, k;
	R turn, more, t, x, y, few;
	Coord co, cb; int plain, mode, count, stride;
	AABB2<R> box2, ox2; AABB3<R> box3, ox3; CAABB2<R> cen2, oen2; CAABB3<R> cen3, oen3;
	Circle<R> circ, oirc; Sphere<R> sph, oph; Plane<R> pl, ql, rl;
	Line2<R> line2; Line3<R> line3; Ray2<R> ray2; Ray3<R> ray3; Tri2<R> tri;
	Frustum<R> fr;
	ColorRGB<R> rgb, ogb; ColorRGBA<R> rgba, ogba; ColorHSV<R> hsv, osv;
	HermiteSplineSegment3<R> her; BezierSegment3<R> bez;
	Vec2<R> pts2[5]; Vec3<R> pts[5]; Vec4<R> pts4[5];
	R lo[5], di[5], up[5], rhs[5]; R full[16];
};
#define FIELDS(X) X(u2) X(v2) X(w2) X(u) X(v) X(w) X(axis) X(p) X(q) X(m2) X(n2) X(r2) X(s2) X(m) X(n) X(r) X(s) X(a) X(b) X(ra) X(rb) X(A) X(B) X(g) X(h) X(k) X(turn) X(more) X(t) X(x) X(y) X(few) \
	X(co) X(cb) X(plain) X(mode) X(count) X(stride) X(box2) X(ox2) X(box3) X(ox3) X(cen2) X(oen2) X(cen3) X(oen3) X(circ) X(oirc) X(sph) X(oph) X(pl) X(ql) X(rl) X(line2) X(line3) X(ray2) X(ray3) X(tri) X(fr) \
	X(rgb) X(ogb) X(rgba) X(ogba) X(hsv) X(osv) X(her) X(bez)

template <class R> void fill(Case& c, In<R>& in)
{
	in.u2 = nonzero2<R>(c); in.v2 = nonzero2<R>(c); in.w2 = nonzero2<R>(c);
	in.u = nonzero3<R>(c); in.v = nonzero3<R>(c); in.w = nonzero3<R>(c); in.axis = unit3<R>(c);
	in.p = vec4<R>(c); in.q = vec4<R>(c);
	in.m2 = anyMat2<R>(c, 1); in.n2 = baseMat2<R>(c); in.r2 = Mat2<R>::from(angle<R>(c)); in.s2 = Mat2<R>::from(angle<R>(c));
	in.m = anyMat3<R>(c, 1); in.n = baseMat3<R>(c);
	in.g = unitQuat<R>(c); in.h = unitQuat<R>(c); in.k = unitQuat<R>(c);
	in.r = Mat3<R>::from(in.g); in.s = Mat3<R>::from(in.h);
	in.a = anyMat34<R>(c, 1); in.b = anyMat34<R>(c, 0); in.ra = Mat34<R>(in.r, in.u); in.rb = Mat34<R>(in.s, in.v);
	in.A = anyMat4<R>(c, true, 1); in.B = baseMat4<R>(c, true);
	in.turn = angle<R>(c); in.more = angle<R>(c); in.t = unit01<R>(c); in.x = nonzero<R>(c); in.y = nonzero<R>(c); in.few = unit01<R>(c) + R(0.01);
	static const Coord k3[3] = {Coord::X, Coord::Y, Coord::Z};
	int d = int(c.draw(3));
	in.co = k3[d]; in.cb = k3[(d + 1 + int(c.draw(2))) % 3];
	in.plain = int(c.draw(2)); in.mode = int(c.draw(40)); in.count = 1 + int(c.draw(5)); in.stride = int(c.draw(3));
	auto box2 = [&] { Vec2<R> o = vec2<R>(c, -3, 3), e(positive<R>(c, -3, 3), positive<R>(c, -3, 3)); return AABB2<R>(o, o + e); };
	auto box3 = [&] { Vec3<R> o = vec3<R>(c, -3, 3), e(positive<R>(c, -3, 3), positive<R>(c, -3, 3), positive<R>(c, -3, 3)); return AABB3<R>(o, o + e); };
	in.box2 = box2(); in.ox2 = box2(); in.box3 = box3(); in.ox3 = box3();
	in.cen2 = CAABB2<R>(vec2<R>(c, -3, 3), Vec2<R>(positive<R>(c, -3, 3), positive<R>(c, -3, 3))); in.oen2.set(in.ox2);
	in.cen3 = CAABB3<R>(vec3<R>(c, -3, 3), Vec3<R>(positive<R>(c, -3, 3), positive<R>(c, -3, 3), positive<R>(c, -3, 3))); in.oen3.set(in.ox3);
	in.circ = Circle<R>(vec2<R>(c, -3, 3), positive<R>(c, -3, 3)); in.oirc = Circle<R>(vec2<R>(c, -3, 3), positive<R>(c, -3, 3));
	in.sph = Sphere<R>(vec3<R>(c, -3, 3), positive<R>(c, -3, 3)); in.oph = Sphere<R>(vec3<R>(c, -3, 3), positive<R>(c, -3, 3));
	auto plane = [&] { Plane<R> e; e.normal = unit3<R>(c); e.d = real<R>(c, -3, 3); return e; };
	in.pl = plane(); in.ql = plane(); in.rl = plane();
	in.line2 = Line2<R>::from(in.u2, in.u2 + in.v2); in.line3 = Line3<R>::from(in.u, in.u + in.v);
	in.ray2 = Ray2<R>::from(vec2<R>(c, -3, 3), unit2<R>(c)); in.ray3 = Ray3<R>::from(vec3<R>(c, -3, 3), unit3<R>(c));
	in.tri = Tri2<R>::from(in.u2, in.v2, in.w2);
	R near_ = positive<R>(c, -2, 2), depth = positive<R>(c, -2, 4), h = positive<R>(c, -2, 2);
	Vec3<R> k[8];
	for (int i = 0; i < 8; i++)
	{
		R z = i & 4 ? near_ + depth : near_;
		k[i] = Vec3<R>(((i + 1) & 2 ? z : -z) * h, (i & 2 ? z : -z) * h, z) + in.w;
	}
	in.fr.set(k);
	auto ch = [&] { return unit01<R>(c); };
	in.rgb = ColorRGB<R>(ch(), ch(), ch()); in.ogb = ColorRGB<R>(ch(), ch(), ch());
	in.rgba = ColorRGBA<R>(ch(), ch(), ch(), ch()); in.ogba = ColorRGBA<R>(ch(), ch(), ch(), ch());
	in.hsv = ColorHSV<R>(ch(), ch(), ch()); in.osv = ColorHSV<R>(ch(), ch(), ch());
	in.her.set(vec3<R>(c), vec3<R>(c), vec3<R>(c), vec3<R>(c)); in.bez.set(vec3<R>(c), vec3<R>(c), vec3<R>(c), vec3<R>(c));
	for (int i = 0; i < 5; i++)
	{
		in.pts2[i] = vec2<R>(c, -3, 3); in.pts[i] = vec3<R>(c, -3, 3); in.pts4[i] = vec4<R>(c, -3, 3);
		in.lo[i] = real<R>(c, -2, 2); in.up[i] = real<R>(c, -2, 2); in.di[i] = c.oneIn(6) ? R(0) : real<R>(c, -2, 4); in.rhs[i] = real<R>(c, -3, 3);
	}
	for (int i = 0; i < 16; i++) in.full[i] = grid<R>(c);
	// operands that are specially related to one another, which is where operations take their other paths
	switch (c.draw(12))
	{
	case 0: in.v2 = -in.u2; in.v = -in.u; in.h = -in.g; break;
	case 1: in.v2 = in.u2; in.v = in.u; in.h = in.g; in.q = in.p; in.ox2 = in.box2; in.ox3 = in.box3; in.oen2 = in.cen2; in.oen3 = in.cen3; in.oirc = in.circ; in.oph = in.sph; in.ql = in.pl; in.n = in.m; in.s = in.r; in.B = in.A; in.b = in.a; in.ogb = in.rgb; in.ogba = in.rgba; in.osv = in.hsv; break;
	case 2: { R k(c.oneIn(2) ? -2 : 4); in.v2 = in.u2 * k; in.v = in.u * k; in.ql.normal = -in.pl.normal; in.ql.d = in.pl.d; break; }
	case 3: in.u2 = Vec2<R>(in.x, R(0)); in.v2 = Vec2<R>(R(0), in.y); in.u = Vec3<R>(in.x, R(0), R(0)); in.v = Vec3<R>(R(0), in.y, R(0)); in.axis = Vec3<R>(R(0), R(0), R(1)); break;
	case 4: in.turn = R(0); in.more = R(0); in.t = R(0); break;
	case 5: in.t = R(1); in.g.setIdentity(); in.r.setIdentity(); in.m2.setIdentity(); in.m.setIdentity(); in.a = Mat34<R>(in.r, in.u); in.A.setIdentity(); break;
	default: break;
	}
}

// ---- operations --------------------------------------------------------------------
template <class R> void flat(Flat& f, const Line2<R>& v) { flat(f, v.start); flat(f, v.end); }
template <class R> void flat(Flat& f, const Line3<R>& v) { flat(f, v.start); flat(f, v.end); }
template <class R> void flat(Flat& f, const Ray2<R>& v) { flat(f, v.start); flat(f, v.direction); }
template <class R> void flat(Flat& f, const Ray3<R>& v) { flat(f, v.start); flat(f, v.direction); }
inline void flat(Flat& f, LD v) { f.push_back(v); }
inline void flat(Flat& f, Coord v) { f.push_back(LD(int(v))); }
template <class T> void put(Flat& f, const T& v) { flat(f, v); f.push_back(says(v)); }

template <class R> using Run = void (*)(const In<R>& i, Flat& f);
template <class R> struct Entry { const char* name; Run<R> run; };
// an expression, and a statement that fills some results
#define EX(E) {#E, [](const In<R>& i, Flat& f) { put(f, (E)); }}
#define EF(...) {#__VA_ARGS__, [](const In<R>& i, Flat& f) { __VA_ARGS__; }}
#define M2(CODE) {"2x2: " #CODE, [](const In<R>& i, Flat& f) { Mat2<R> o(i.m2); CODE; put(f, o); }}
#define M3(CODE) {"3x3: " #CODE, [](const In<R>& i, Flat& f) { Mat3<R> o(i.m); CODE; put(f, o); }}
#define M34(CODE) {"3x4: " #CODE, [](const In<R>& i, Flat& f) { Mat34<R> o(i.a); CODE; put(f, o); }}
#define M4(CODE) {"4x4: " #CODE, [](const In<R>& i, Flat& f) { Mat4<R> o(i.A); CODE; put(f, o); }}
#define QU(CODE) {"quaternion: " #CODE, [](const In<R>& i, Flat& f) { Quat<R> o(i.k); CODE; put(f, o); }}
#define W2(CODE) {"vector 2: " #CODE, [](const In<R>& i, Flat& f) { Vec2<R> o(i.w2); CODE; put(f, o); }}
#define W3(CODE) {"vector 3: " #CODE, [](const In<R>& i, Flat& f) { Vec3<R> o(i.w); CODE; put(f, o); }}
#define OUT3 Vec3<R> o(R(7), R(8), R(9)); R d(5)
#define OUT2 Vec2<R> o(R(7), R(8)); R d(5)
#define FREE(M) ((M).determinant() != R(0))

template <class R> static const std::vector<Entry<R>>& table()
{
	typedef typename std::conditional<std::is_same<R, float>::value, double, float>::type Other;
	static const std::vector<Entry<R>> t = {
		// vectors
		EX(i.u2 + i.v2), EX(i.u2 - i.v2), EX(i.u2 * i.v2), EX(i.u2 % i.v2), EX(i.u2 * i.x), EX(i.u2 / i.x), EX(i.u2 * i.m2), EX(i.u2.length()), EX(i.u2.angle()), EX(i.u2.normalized(i.x)), EX(i.u2.rotated(i.turn)), EX(i.u2.majorCoord()), EX(i.u2.minorCoord()),
		EX(Vec2<R>::fromAngle(i.turn)), EX(Vec2<R>::fromAngle(i.turn, i.x)), EX(Vec2<R>::fromClerp(i.u2, i.v2, i.t)), EX(Vec2<R>::fromClerpMaxAngle(i.u2, i.v2, i.few)), EX(Vec2<R>::crossProduct(i.u2, i.v2, i.w2)),
		W2(o.rotate(i.turn)), W2(o.setAngle(i.turn, i.x)), W2(o.normalize(i.x)), W2(o.clerp(i.u2, i.v2, i.t)), W2(o.clerpMaxAngle(i.u2, i.v2, i.few)), EX(Vec2<R>(i.u, i.co)),
		EF(R a(5); R b(6); put(f, LD(intersection(i.u2, i.v2, i.w2, i.pts2[0], a, b))); put(f, LD(a)); put(f, LD(b))),
		EX(i.u + i.v), EX(i.u - i.v), EX(i.u * i.v), EX(i.u % i.v), EX(i.u * i.x), EX(i.u / i.x), EX(i.u * i.m), EX(i.u % i.co), EX(i.u.length()), EX(i.u.normalized(i.x)), EX(i.u.rotated(i.co, i.turn)), EX(i.u.mirrored(i.co)), EX(i.u.majorCoord()), EX(i.u.minorCoord()), EX(i.u.toVec2(i.co)),
		EX(Vec3<R>::fromSlerp(i.u, i.v, i.t)), EX(Vec3<R>::fromSlerpMaxAngle(i.u, i.v, i.few)), EX(Vec3<R>::product(i.u, i.v)), W3(o.rotate(i.co, i.turn)), W3(o.normalize(i.x)), W3(o.slerp(i.u, i.v, i.t)), W3(o.slerpMaxAngle(i.u, i.v, i.few)), W3(o %= i.u), W3(o *= i.m), EX(Vec3<R>(i.u2, i.co)),
		EX(i.p + i.q), EX(i.p * i.q), EX(i.p * i.x), EX(i.p / i.x), EX(i.p.length()), EX(i.p.toVec3()), EX(Vec4<R>::product(i.p, i.q)),
		// matrices
		EX(i.m2 * i.n2), EX(i.m2 * i.u2), EX(i.m2.rotated(i.turn)), EX(i.m2.scaled(i.u2)), EX(i.m2.transposed()), EX(i.m2.cofactors()), EX(i.m2.adjoint()), EX(i.m2.determinant()), EX(i.r2.angle()), EX(i.m2.normalError()), EX(i.m2.orthogonalError()), EX(i.m2.identityError()), EX(Mat2<R>::from(i.turn)),
		EX(Mat2<R>::fromSlerp(i.r2, i.s2, i.t)), EX(Mat2<R>::fromSlerpMaxAngle(i.r2, i.s2, i.few)), M2(o.set(i.turn)), M2(o.rotate(i.turn)), M2(o.rotatePre(i.turn)), M2(o.scale(i.u2)), M2(o *= i.n2), M2(o.optimize()), M2(if (FREE(o)) o = o.inversed()), M2(o.transpose()),
		EX(i.m * i.n), EX(i.m * i.u), EX(i.m.scaled(i.u)), EX(i.m.rotated(i.r)), EX(i.m.rotated(i.g)), EX(i.m.rotated(i.axis, i.turn)), EX(i.m.rotated(i.co, i.turn)), EX(i.m.rotatedPre(i.r)), EX(i.m.rotatedPre(i.g)), EX(i.m.rotatedPre(i.axis, i.turn)), EX(i.m.rotatedPre(i.co, i.turn)), EX(i.m.transposed()),
		EX(i.m.cofactors()), EX(i.m.adjoint()), EX(i.m.trace()), EX(i.m.determinant()), EX(i.m.normalError()), EX(i.m.orthogonalError()), EX(i.m.identityError()), EX(Mat3<R>::from(i.g)), EX(Mat3<R>::from(i.axis, i.turn)), EX(Mat3<R>::from(i.co, i.turn)), EX(Mat3<R>::from(i.co, i.u, i.cb, i.v)),
		EX(Mat3<R>::fromSlerp(i.r, i.s, i.t)), EX(Mat3<R>::fromSlerpMaxAngle(i.r, i.s, i.few)), M3(o.set(i.axis, i.turn)), M3(o.set(i.co, i.turn)), M3(o.set(i.h)), M3(o.set(i.u, i.v, i.w)), M3(o.rotate(i.axis, i.turn)), M3(o.rotate(i.co, i.turn)), M3(o.rotatePre(i.axis, i.turn)), M3(o.rotatePre(i.co, i.turn)),
		M3(o.scale(i.u)), M3(o *= i.n), M3(o.optimize()), M3(if (FREE(o)) o.invert()), M3(o.transpose()), EF(Vec3<R> o[5]; i.m.transform(o, i.pts, 5); for (auto& e : o) put(f, e)),
		EX(i.a * i.b), EX(i.a * i.m), EX(i.a * i.u), EX(Mat34<R>::from(i.g, i.u)), EX(Mat34<R>::from(i.axis, i.turn, i.u)), EX(Mat34<R>::from(i.co, i.turn, i.u)), EX(Mat34<R>::from(i.co, i.u, i.cb, i.v)), EX(Mat34<R>::fromSlerp(i.ra, i.rb, i.t)), EX(Mat34<R>::fromSlerpMaxAngle(i.ra, i.rb, i.few)),
		M34(o.rotate(i.g)), M34(o.rotate(i.axis, i.turn)), M34(o.rotate(i.co, i.turn)), M34(o.translate(i.u)), M34(o.scale(i.u)), M34(o.transform(i.b)), M34(o.rotatePre(i.g)), M34(o.rotatePre(i.axis, i.turn)), M34(o.rotatePre(i.co, i.turn)), M34(o.translatePre(i.u)), M34(o.scalePre(i.u)), M34(o.transformPre(i.b)),
		M34(o.optimize()), M34(if (FREE(o.rs)) o.invert()), M34(o.transpose()), EX(i.a.localAxis(i.co)), EX(i.a.localPlane(i.co)), EF(Vec3<R> o[5]; i.a.transform(o, i.pts, 5); for (auto& e : o) put(f, e)),
		EX(i.A * i.B), EX(i.A * i.u), EX(i.A * i.p), EX(Mat4<R>::from(i.g, i.u)), EX(Mat4<R>::from(i.axis, i.turn)), EX(Mat4<R>::from(i.co, i.turn)), EX(Mat4<R>::from(i.co, i.u, i.cb, i.v)), EX(i.A.rotated(i.g)), EX(i.A.rotated(i.axis, i.turn)), EX(i.A.rotated(i.co, i.turn)), EX(i.A.translated(i.u)), EX(i.A.scaled(i.u)), EX(i.A.transformed(i.B)),
		EX(i.A.rotatedPre(i.g)), EX(i.A.rotatedPre(i.axis, i.turn)), EX(i.A.rotatedPre(i.co, i.turn)), EX(i.A.translatedPre(i.u)), EX(i.A.scaledPre(i.u)), EX(i.A.transformedPre(i.B)), EX(i.A.transposed()), EX(i.A.trace()), EX(i.A.determinant()), EX(i.A.normalError()), EX(i.A.orthogonalError()), EX(i.A.identityError()),
		M4(o.rotate(i.axis, i.turn)), M4(o.rotate(i.co, i.turn)), M4(o.rotatePre(i.co, i.turn)), M4(o.scale(i.u)), M4(o.translate(i.u)), M4(o.transform(i.B)), M4(o.transformPre(i.B)), M4(o.optimize()), M4(if (FREE(o)) o.invert()), M4(o.transpose()), M4(o.set(i.co, i.turn)), M4(o.set(i.axis, i.turn)), EX(i.A.localAxis(i.co)), EX(i.A.localPlane(i.co)),
		EF(Vec3<R> o[5]; i.A.transform(o, i.pts, 5); for (auto& e : o) put(f, e)), EF(Vec4<R> o[5]; i.A.transform(o, i.pts4, 5); for (auto& e : o) put(f, e)), EF(Vec3<R> o[5]; i.A.transformVector(o, i.pts, 5); for (auto& e : o) put(f, e)),
		EX(i.m.template cast<Other>()), EX(i.A.template cast<Other>()), EX(i.a.template cast<Other>()),
		// quaternions
		EX(i.g * i.h), EX(i.g / i.h), EX(i.g * i.u), EX(i.g.inverse()), EX(i.g.rotated(i.co)), EX(i.g.rotated(i.u)), EX(Quat<R>::from(i.r)), EX(Quat<R>::from(i.axis, i.turn)), EX(Quat<R>::from(i.u, i.v)), EX(Quat<R>::fromLerp(i.g, i.h, i.t)), EX(Quat<R>::fromSlerp(i.g, i.h, i.t)), EX(Quat<R>::fromSlerpNoInvert(i.g, i.h, i.t)),
		EX(Quat<R>::fromSlerpMaxAngle(i.g, i.h, i.few)), EX(Quat<R>::from(i.g, i.h, i.k)), EX(Quat<R>::from(i.g, i.h, i.k, i.g, i.t)), EX(Quat<R>::log(i.g)), EX(Quat<R>::exp(Quat<R>::log(i.g))), QU(o.set(i.s)), QU(o.set(i.axis, i.turn)), QU(o.set(i.u, i.v)), QU(o.slerp(i.g, i.h, i.t)), QU(o.normalize()),
		EF(OUT3; i.g.toAxisAngle(o, d); put(f, o); put(f, LD(d))), EX(Quat<R>::from(Mat4<R>::from(i.g))),
		// boxes and round bodies
		EX(AABB2<R>::from(i.count, i.pts2)), EX(AABB2<R>::fromUnion(i.box2, i.ox2)), EX(AABB2<R>::fromIntersection(i.box2, i.ox2)), EX(i.box2 + i.u2), EX(i.box2 * i.x), EX(i.box2.center()), EX(i.box2.innerCircle()), EX(i.box2.outerCircle()), EX(i.box2.area()), EX(LD(i.box2.contains(i.u2))), EX(LD(i.box2.contains(i.ox2))), EX(LD(i.box2.intersects(i.ox2))),
		EF(R d(5); put(f, LD(i.box2.hits(d, i.ray2))); put(f, LD(d))), EF(R d(5); put(f, LD(i.box2.hits(d, i.line2))); put(f, LD(d))), EF(R d(5); R e(6); put(f, LD(i.box2.intersects(d, e, i.ray2))); put(f, LD(d)); put(f, LD(e))),
		EX(AABB3<R>::from(i.count, i.pts)), EX(AABB3<R>::fromUnion(i.box3, i.ox3)), EX(AABB3<R>::fromIntersection(i.box3, i.ox3)), EX(i.box3 + i.u), EX(i.box3 * i.x), EX(i.box3.center()), EX(i.box3.innerSphere()), EX(i.box3.outerSphere()), EX(i.box3.volume()), EX(i.box3.pointAt(i.u)), EX(LD(i.box3.contains(i.u))), EX(LD(i.box3.contains(i.sph))), EX(LD(i.box3.intersects(i.ox3))),
		EF(R d(5); put(f, LD(i.box3.hits(d, i.ray3))); put(f, LD(d))), EF(R d(5); put(f, LD(i.box3.hits(d, i.line3))); put(f, LD(d))), EF(R d(5); R e(6); put(f, LD(i.box3.intersects(d, e, i.ray3))); put(f, LD(d)); put(f, LD(e))), EF(R d(5); R e(6); put(f, LD(i.box3.intersects(d, e, i.line3))); put(f, LD(d)); put(f, LD(e))),
		EX(CAABB2<R>::from(i.count, i.pts2)), EX(i.cen2 + i.u2), EX(i.cen2.innerCircle()), EX(i.cen2.outerCircle()), EX(LD(i.cen2.contains(i.u2))), EX(LD(i.cen2.intersects(i.oen2))), EX(CAABB3<R>::from(i.count, i.pts)), EX(i.cen3 * i.x), EX(i.cen3.innerSphere()), EX(i.cen3.outerSphere()), EX(LD(i.cen3.contains(i.u))), EX(LD(i.cen3.intersects(i.oen3))),
		EX(Circle<R>::from(i.count, i.pts2)), EX(LD(i.circ.contains(i.oirc))), EX(LD(i.circ.intersects(i.oirc))), EX(LD(i.circ.intersects(i.line3))), EF(OUT2; put(f, LD(i.circ.intersects(o, d, i.oirc))); put(f, o); put(f, LD(d))), EF(OUT2; put(f, LD(i.circ.hits(o, d, i.line3))); put(f, o); put(f, LD(d))),
		EX(Sphere<R>::from(i.count, i.pts)), EX(LD(i.sph.contains(i.oph))), EX(LD(i.sph.intersects(i.oph))), EX(LD(i.sph.intersects(i.line3))), EF(OUT3; put(f, LD(i.sph.intersects(o, d, i.oph))); put(f, o); put(f, LD(d))), EF(OUT3; put(f, LD(i.sph.hits(o, d, i.line3))); put(f, o); put(f, LD(d))), EF(OUT3; put(f, LD(i.sph.intersects(o, d, i.line3))); put(f, o); put(f, LD(d))),
		// planes, lines, triangles, frusta
		EX(Plane<R>::from(i.u, i.axis)), EX(Plane<R>::from(i.u, i.v, i.w)), EX(Plane<R>::fromPointAndTangents(i.u, i.v, i.w)), EX(i.pl.moved(i.x)), EX(i.pl.flipped()), EX(i.pl.distance(i.u)), EF(OUT3; put(f, LD(i.pl.project(o, i.u))); put(f, o)), EF(OUT3; put(f, LD(i.pl.project(o, i.u, i.axis))); put(f, o)),
		EF(OUT3; put(f, LD(i.pl.hits(o, d, i.ray3))); put(f, o); put(f, LD(d))), EF(OUT3; put(f, LD(i.pl.hits(o, d, i.line3))); put(f, o); put(f, LD(d))), EF(OUT3; put(f, LD(i.pl.intersects(o, d, i.ray3))); put(f, o); put(f, LD(d))), EF(OUT3; put(f, LD(i.pl.intersects(o, d, i.line3))); put(f, o); put(f, LD(d))), EF(R d(5); put(f, LD(i.pl.hits(d, i.sph))); put(f, LD(d))),
		EF(OUT3; put(f, LD(Plane<R>::intersectAtSinglePoint(o, i.pl, i.ql, i.rl))); put(f, o)), EX(i.line2.distance(i.w2)), EX(i.line2.pointAt(i.t)), EX(i.line3.distance(i.w)), EX(i.line3.pointAt(i.t)), EX(i.ray2.distance(i.w2)), EX(i.ray3.distance(i.w)), EX(i.ray3.pointAt(i.x)), EX(LD(i.tri.contains(i.pts2[0]))),
		EX(LD(i.fr.contains(i.u))), EX(LD(i.fr.contains(i.sph))), EX(LD(i.fr.intersects(i.sph))), EF(Frustum<R> o; o.set(i.fr.corners); put(f, o)), EF(Frustum<R> o; o.set(i.ra, i.fr.corners); put(f, o)), EF(Frustum<R> o; o.set(Mat4<R>(i.r, i.u), i.fr.corners); put(f, o)),
		// colours, interpolation, scalars
		EX(i.rgb.toHSV()), EX(i.hsv.toRGB()), EX(i.rgba.toHSV()), EX(i.rgb + i.ogb), EX(ColorRGB<R>::fromInterp(i.rgb, i.ogb, i.t)), EX(ColorRGBA<R>::fromInterp(i.rgba, i.ogba, i.t)), EX(ColorHSV<R>::fromInterp(i.hsv, i.osv, i.t)),
		EX(interpolationRatio(i.t, InterpolationMode(i.mode % 29))), EX(lerp(i.x, i.y, i.t)), EX(lerp(i.u, i.v, i.t)), EX(lerp(i.u, i.v, i.t, InterpolationMode(i.mode % 29))), EX(clerp(i.turn, i.more, i.t)), EX(clerpMaxAngle(i.turn, i.more, i.few)), EF(R d(5); put(f, LD(clerpMaxAngle(i.turn, i.more, i.few, d))); put(f, LD(d))),
		EX(mathlib::acos(i.t)), EX(mathlib::asin(i.t)), EX(mathlib::fmod(i.x, i.y)), EX(fmodPositive(i.x, i.few)), EX(fmodCentered(i.x, i.few)), EX(degreeToRadian(i.x)), EX(radianToDegree(i.x)), EX(mathlib::distance(i.u, i.v)), EX(mathlib::clippedBetween(i.x, R(-1), R(1))), EX(mathlib::evaluate(i.t, R(0.25), ResponseCurveType(i.mode % 6))),
		// curves
		EX(i.her.pointAt(i.t)), EX(i.her.tangentAt(i.t)), EX(i.bez.pointAt(i.t)), EX(i.bez.tangentAt(i.t)), EX(i.bez.length()), EX(i.bez.length(1 + i.mode)), EF(Mat3<R> o(R(1)); put(f, LD(i.bez.frenetFrameAt(o, i.t))); put(f, o)), EF(BezierSegment3<R> o; BezierSegment3<R> e; i.bez.split(i.t, o, e); put(f, o); put(f, e)),
		EF(BezierSegment3FwdDiff<R> o(i.bez.p1(), i.bez.p2(), i.bez.p3(), i.bez.p4(), R(0.125)); for (int k = 0; k < i.count; k++) o.stepForward(); put(f, o.currentPoint()); put(f, o.currentTangent())),
		// systems of equations and splines
		EF(R o[5] = {}; put(f, LD(TriDiagonal<R>::solve(i.lo, i.di, i.up, i.rhs, o, i.count)));), EF(R o[5] = {}; if (TriDiagonal<R>::solve(i.lo, i.di, i.up, i.rhs, o, i.count)) for (R e : o) put(f, LD(e))), EF(Vec3<R> o[5]; if (TriDiagonal<R>::solve(i.lo, i.di, i.up, i.pts, o, i.count)) for (int k = 0; k < i.count; k++) put(f, o[k])),
		EF(R o[5] = {}; if (i.di[0] != 0 && TriDiagonal<R>::solveCyclic(i.lo, i.di, i.up, i.x, i.y, i.rhs, o, 5)) for (R e : o) put(f, LD(e))), EF(R m[16]; R o[4]; std::copy(i.full, i.full + 16, m); std::copy(i.rhs, i.rhs + 4, o); bool ok = GaussJordan<R>::solve(m, 4, o, 1); put(f, LD(ok)); if (ok) { for (R e : o) put(f, LD(e)); for (R e : m) put(f, LD(e)); }),
		EF(R m[9]; Vec3<R> o[3]; std::copy(i.full, i.full + 9, m); std::copy(i.pts, i.pts + 3, o); if (GaussJordan<R>::solve(m, 3, o)) for (auto& e : o) put(f, e)), EF(R m[9]; Vec2<R> o[3]; std::copy(i.full, i.full + 9, m); std::copy(i.pts2, i.pts2 + 3, o); if (GaussJordan<R>::solve(m, 3, o)) for (auto& e : o) put(f, e)),
		EF(Vec3<R> o[5]; Vec3<R> e[5]; int n = i.count < 2 ? 2 : i.count; if (SplineSolver3<R>::naturalBezierSpline(n, i.pts, o, e)) for (int k = 0; k + 1 < n; k++) { put(f, o[k]); put(f, e[k]); }),
		EF(Vec3<R> o[5]; Vec3<R> e[5]; int n = i.count < 2 ? 2 : i.count; if (SplineSolver3<R>::bezierSpline(n, i.pts, i.u, i.v, o, e)) for (int k = 0; k + 1 < n; k++) { put(f, o[k]); put(f, e[k]); }),
		EF(Vec3<R> o[5]; Vec3<R> e[5]; int n = i.count < 2 ? 2 : i.count; if (SplineSolver3<R>::closedBezierSpline(n, i.pts, o, e)) for (int k = 0; k < n; k++) { put(f, o[k]); put(f, e[k]); }),
		// constants
		EX(Vec3<R>::Zero), EX(Mat3<R>::One), EX(Mat3<R>::Zero), EX(Mat34<R>::One), EX(Mat4<R>::One), EX(Mat4<R>::Zero), EX(Mat2<R>::One), EX(Vec2<R>::OneY), EX(Vec3<R>::OneZ), EX(Constants<R>::PI), EX(LD(Mat3<R>::DefaultTolerance.normal)), EX(LD(Mat4<R>::DefaultTolerance.orthogonal)),
	};
	return t;
}

template <class R> struct Step { int op, set; };

static bool same(const Flat& a, const Flat& b)
{
	if (a.size() != b.size()) return false;
	for (size_t k = 0; k < a.size(); k++)
	{
		if (a[k] != a[k] && b[k] != b[k]) continue;
		if (a[k] != b[k] || std::signbit(a[k]) != std::signbit(b[k])) return false;
	}
	return true;
}

// four sets: two independent ones and two mixtures
template <class R> struct Sets
{
	In<R> s[4];
	Sets(Case& c)
	{
		memset((void*)s, 0, sizeof s);
		fill(c, s[0]); fill(c, s[1]);
		s[2] = s[0]; s[3] = s[1];
		// a mixture is as likely to differ in a single operand as in many
		bool one = c.flip();
		uint64_t only = c.draw(64);
		uint64_t at = 0;
#define PICK(F) if (one ? at == only : c.flip()) { s[2].F = s[1].F; s[3].F = s[0].F; } at++;
		FIELDS(PICK)
#undef PICK
		for (auto& e : s) if (e.co == e.cb) e.cb = e.co == Coord::X ? Coord::Y : Coord::X;
	}
};

template <class R> static std::vector<Step<R>> steps(Case& c, int maxSteps, int maxOps)
{
	// few operations, so that each is met again
	int n = int(table<R>().size());
	int k = 1 + int(c.draw(uint64_t(maxOps)));
	std::vector<int> ops;
	for (int i = 0; i < k; i++) ops.push_back(int(c.draw(uint64_t(n))));
	int len = 2 + int(c.draw(uint64_t(maxSteps - 1)));
	std::vector<Step<R>> st;
	for (int i = 0; i < len; i++) st.push_back(Step<R>{ops[c.draw(uint64_t(k))], int(c.draw(4))});
	return st;
}
template <class R> static std::string where(const Step<R>& s) { return std::string(table<R>()[size_t(s.op)].name) + " on operands " + std::to_string(s.set); }

#ifndef PBT_TSAN
LAW(history, 1)
{
	auto sets = std::unique_ptr<Sets<Real>>(new Sets<Real>(c));
	auto st = steps<Real>(c, 24, 5);
	unsigned seed = unsigned(c.draw(1000)) + 1;
	std::vector<unsigned char> before((unsigned char*)sets->s, (unsigned char*)sets->s + sizeof sets->s);
	std::vector<Flat> got(st.size());
	const auto& t = table<Real>();
	for (auto& x : st) { c.note(where(x)); }
	::srand(seed);
	int expectRand = ::rand();
	::srand(seed);
	for (size_t i = 0; i < st.size(); i++) t[size_t(st[i].op)].run(sets->s[st[i].set], got[i]);
	REQUIREM(::rand() == expectRand, "an operation other than the random ones drew from the random numbers");
	REQUIREM(std::fegetround() == FE_TONEAREST, "the rounding mode was changed");
	REQUIREM(memcmp(before.data(), sets->s, sizeof sets->s) == 0, "an operation changed an operand it takes as const");
	bool again = false;
	for (size_t i = 0; i < st.size(); i++)
	{
		c.label(t[size_t(st[i].op)].name);
		bool other = false;
		for (size_t j = i + 1; j < st.size(); j++)
		{
			if (st[j].op != st[i].op) continue;
			if (st[j].set != st[i].set) { other = true; continue; }
			again = again || other;
			REQUIREM(same(got[i], got[j]), where(st[i]) + " gave " + text(got[i]) + " as step " + std::to_string(i) + " and " + text(got[j]) + " as step " + std::to_string(j));
		}
	}
	// the same calls backwards
	for (size_t i = st.size(); i-- > 0;)
	{
		Flat g;
		t[size_t(st[i].op)].run(sets->s[st[i].set], g);
		REQUIREM(same(got[i], g), where(st[i]) + " gave " + text(got[i]) + " and " + text(g) + " when the calls were made backwards");
	}
	// and with the operands in each other's places: where they live is no argument
	{
		unsigned char tmp[sizeof(In<Real>)];
		for (int k = 0; k < 4; k += 2)
		{
			memcpy(tmp, (void*)&sets->s[k], sizeof tmp);
			memcpy((void*)&sets->s[k], (void*)&sets->s[k + 1], sizeof tmp);
			memcpy((void*)&sets->s[k + 1], tmp, sizeof tmp);
		}
	}
	for (size_t i = 0; i < st.size(); i++)
	{
		Flat g;
		t[size_t(st[i].op)].run(sets->s[st[i].set ^ 1], g);
		REQUIREM(same(got[i], g), where(st[i]) + " gave " + text(got[i]) + " and " + text(g) + " with equal operands in another place");
	}
	c.nontrivial(again);
}
#endif

LAW(threads, 0.02)
{
	auto sets = std::unique_ptr<Sets<Real>>(new Sets<Real>(c));
	auto st = steps<Real>(c, 12, 4);
#ifdef PBT_TSAN
	const int rounds = 1;
#else
	const int rounds = 40;
#endif
	const auto& t = table<Real>();
	for (auto& x : st) { c.note(where(x)); c.label(t[size_t(x.op)].name); }
	const int T = 4;
	std::vector<Flat> got[T];
	std::vector<int> bad(T, -1);
	std::vector<Flat> badGot(T);
	std::atomic<int> ready(0);
	auto body = [&](int w)
	{
		got[w].resize(st.size());
		ready.fetch_add(1, std::memory_order_relaxed);
		while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
		for (int r = 0; r < rounds; r++)
			for (size_t k = 0; k < st.size(); k++)
			{
				size_t i = (k + size_t(w)) % st.size();
				Flat g;
				t[size_t(st[i].op)].run(sets->s[st[i].set], g);
				if (r == 0) got[w][i] = g;
				else if (!same(g, got[w][i]) && bad[size_t(w)] < 0) { bad[size_t(w)] = int(i); badGot[size_t(w)] = g; }
			}
	};
	// the threads come first: what is only set up at the first call is met by all of them
	std::vector<std::thread> th;
	for (int w = 0; w < T; w++) th.emplace_back(body, w);
	for (auto& x : th) x.join();
	for (size_t i = 0; i < st.size(); i++)
	{
		Flat g;
		t[size_t(st[i].op)].run(sets->s[st[i].set], g);
		for (int w = 0; w < T; w++)
		{
			REQUIREM(same(got[w][i], g), where(st[i]) + " gave " + text(got[w][i]) + " on one of four threads and " + text(g) + " alone");
			if (bad[size_t(w)] == int(i)) pbt::failWith(where(st[i]) + " gave " + text(got[w][i]) + " and then " + text(badGot[size_t(w)]) + " on one of four threads");
		}
	}
	c.nontrivial();
}
