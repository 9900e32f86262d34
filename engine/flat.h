// The values a value of any type is made of
#pragma once
#include "gen.h"

using namespace mathlib;
using pbt::LD;

// ---- the values of a target -------------------------------------------------------
typedef std::vector<LD> Flat;
template <class R> void flat(Flat& f, const Vec2<R>& v) { f.push_back(v.x); f.push_back(v.y); }
template <class R> void flat(Flat& f, const Vec3<R>& v) { f.push_back(v.x); f.push_back(v.y); f.push_back(v.z); }
template <class R> void flat(Flat& f, const Vec4<R>& v) { f.push_back(v.x); f.push_back(v.y); f.push_back(v.z); f.push_back(v.w); }
template <class R> void flat(Flat& f, const Quat<R>& v) { f.push_back(v.x); f.push_back(v.y); f.push_back(v.z); f.push_back(v.w); }
template <class R> void flat(Flat& f, const ColorRGB<R>& v) { f.push_back(v.r); f.push_back(v.g); f.push_back(v.b); }
template <class R> void flat(Flat& f, const ColorRGBA<R>& v) { f.push_back(v.r); f.push_back(v.g); f.push_back(v.b); f.push_back(v.a); }
template <class R> void flat(Flat& f, const ColorHSV<R>& v) { f.push_back(v.h); f.push_back(v.s); f.push_back(v.v); }
template <class R> void flat(Flat& f, const Mat2<R>& m) { flat(f, m.x); flat(f, m.y); }
template <class R> void flat(Flat& f, const Mat3<R>& m) { flat(f, m.x); flat(f, m.y); flat(f, m.z); }
template <class R> void flat(Flat& f, const Mat34<R>& m) { flat(f, m.rs); flat(f, m.t); }
template <class R> void flat(Flat& f, const Mat4<R>& m) { flat(f, m.x); flat(f, m.y); flat(f, m.z); flat(f, m.t); }
template <class R> void flat(Flat& f, const AABB2<R>& b) { flat(f, b.inf); flat(f, b.sup); }
template <class R> void flat(Flat& f, const AABB3<R>& b) { flat(f, b.inf); flat(f, b.sup); }
template <class R> void flat(Flat& f, const CAABB2<R>& b) { flat(f, b.center); flat(f, b.extents); }
template <class R> void flat(Flat& f, const CAABB3<R>& b) { flat(f, b.center); flat(f, b.extents); }
template <class R> void flat(Flat& f, const Circle<R>& b) { flat(f, b.center); f.push_back(b.radius); }
template <class R> void flat(Flat& f, const Sphere<R>& b) { flat(f, b.center); f.push_back(b.radius); }
template <class R> void flat(Flat& f, const Plane<R>& b) { flat(f, b.normal); f.push_back(b.d); }
template <class R> void flat(Flat& f, const HermiteSplineSegment3<R>& b) { flat(f, b.p1()); flat(f, b.p4()); flat(f, b.r1()); flat(f, b.r4()); }
template <class R> void flat(Flat& f, const BezierSegment3<R>& b) { flat(f, b.p1()); flat(f, b.p2()); flat(f, b.p3()); flat(f, b.p4()); }
template <class R> void flat(Flat& f, const Frustum<R>& b) { for (int i = 0; i < 8; i++) flat(f, b.corners[i]); for (int i = 0; i < 6; i++) flat(f, b.planes[i]); }

// what a target says about itself
template <class T> int says(const T&) { return 0; }
template <class R> int says(const Mat2<R>& m) { return m.isIdentity() | m.isOrthogonal() << 1 | m.isNormal() << 2; }
template <class R> int says(const Mat3<R>& m) { return m.isIdentity() | m.isOrthogonal() << 1 | m.isNormal() << 2; }
template <class R> int says(const Mat34<R>& m) { return says(m.rs); }
template <class R> int says(const Mat4<R>& m) { return m.isIdentity() | m.isOrthogonal() << 1 | m.isNormal() << 2; }

static std::string text(const Flat& f) { std::string s_ = "("; for (size_t i = 0; i < f.size(); i++) s_ += (i ? ", " : "") + pbt::str(f[i]); return s_ + ")"; }
