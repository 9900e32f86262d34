From 6270c9b8f00ba248746bd550a63c3f6b50089bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 01/39] fix: clerp and clerpMaxAngle take the shortest way for
 every pair of angles

The truncating fmod left differences below -pi outside [-pi, pi], and the
reported ratio was the angle reached over the difference instead of the
part of the difference covered.
---
 libs/mathlib/include/interpolation.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..49e8143 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,12 +195,12 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
-	Real angle = (delta >= 0)
-		? (from + ((delta > maxAngle) ? maxAngle : delta))
-		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
-	return angle;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
+	Real turn = (delta >= 0)
+		? ((delta > maxAngle) ? maxAngle : delta)
+		: ((delta < -maxAngle) ? -maxAngle : delta);
+	ratio = (delta != Real(0)) ? turn / delta : Real(1);
+	return from + turn;
 }
 
 MATHLIB_NS_END
-- 
2.43.0


From 1d1f56418fbccb4cbfe9bf4ef2219b08ae469d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 02/39] fix: Vec3 slerp and slerpMaxAngle turn by the right
 angle beyond 90 degrees

The angle came from its sine alone, so obtuse angles were taken for their
supplements and the second vector was never reached.
---
 libs/mathlib/include/impl/vec3.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..25aa7b6 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -125,8 +125,9 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (MATHLIB_NS::abs(sinAngle) < 0.05f)
+		if (sinAngle == Real(0) || (MATHLIB_NS::abs(sinAngle) < 0.05f && cosAngle > Real(0)))
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -135,7 +136,7 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = atan2(sinAngle, cosAngle);
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -172,11 +173,11 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
 
-		Real angle = asin(sinAngle);
-
-		if (angle == Real(0))
+		if (sinAngle == Real(0))
 			return set(v);
 
+		Real angle = atan2(sinAngle, (u * v) / (lengthU * lengthV));
+
 		Real actualAngle = (angle >= Real(0))
 			? ((angle > maxAngle) ? maxAngle : angle)
 			: ((angle < -maxAngle) ? -maxAngle : angle);
-- 
2.43.0


From ba06367e53bb604ff7cc5de3e5191e4984dc0a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 03/39] fix: dividing by a quaternion multiplies by its inverse

It multiplied by the divisor itself, scaled by a wrong norm.
---
 libs/mathlib/include/impl/quat.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..69451d6 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -461,10 +461,9 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	// p = this * q^(-1)
+	Real s = Real(1) / (q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
+	Quat p = *this * q.inverse();
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From 8a37b293cae9f2ba635af5e475e69702f7325829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 04/39] fix: slerpMaxAngle of quaternions starts at from and
 takes the shortest arc

It returned the limited relative rotation without applying it to from, and
turned the long way round when the operands had opposite signs.
---
 libs/mathlib/include/impl/quat.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 69451d6..b70ce2a 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -228,12 +228,17 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 	assert(maxAngle >= Real(0));
 
 	Quat fromto = from.inverse() * to;
+	if (fromto.w < Real(0))
+		fromto = -fromto;
 
 	Vec3<Real> axis;
 	Real angle;
 	fromto.toAxisAngle(axis, angle);
 
-	return set(axis, min(angle, maxAngle));
+	Quat turn;
+	turn.set(axis, min(angle, maxAngle));
+
+	return set(from * turn);
 }
 
 template <class Real>
-- 
2.43.0


From 9cf1015479b0f960c86d331932e3ade5f2890d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 05/39] fix: the rotation between opposite directions is half a
 turn

It was the identity (w = -1), which leaves from where it is.
---
 libs/mathlib/include/impl/quat.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index b70ce2a..463ecb0 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -154,10 +154,12 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	}
 	if (cost < Real(-0.99999))
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
+		// half a turn around any axis perpendicular to from
+		Vec3<Real> axis = (from % from.minorCoord()).normalized();
+		x = axis.x;
+		y = axis.y;
+		z = axis.z;
+		w = Real(0);
 		return *this;
 	}
 
-- 
2.43.0


From cef694f5da6f8df5b717a81a046e73602481efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 06/39] fix: Quat::set(from, via, to) compiles when it is used

Quat has no operator+.
---
 libs/mathlib/include/impl/quat.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 463ecb0..0f63aaf 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -290,11 +290,14 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat logFrom = log(qni * from);
+	Quat logTo = log(qni * to);
+
+	Quat tmp;
+	tmp.x = (logFrom.x + logTo.x) * Real(-0.25);
+	tmp.y = (logFrom.y + logTo.y) * Real(-0.25);
+	tmp.z = (logFrom.z + logTo.z) * Real(-0.25);
+	tmp.w = Real(0);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From 4995b53523634dfbe9d260f4c01f8d165a8c1f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 07/39] fix: small rotations and offsets are not taken for the
 identity

The identity tolerance bounds a sum of squared errors, so 0.001 let a matrix
that turns by more than a degree, or moves by 0.03, be flagged identity, and
products with it dropped it altogether.
---
 libs/mathlib/include/impl/mat2.h | 2 +-
 libs/mathlib/include/impl/mat3.h | 2 +-
 libs/mathlib/include/impl/mat4.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..a4a6ce3 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -9,7 +9,7 @@ template <class Real>
 const Mat2<Real> Mat2<Real>::One = Mat2<Real>(Real(1));
 
 template <class Real>
-const typename Mat2<Real>::Tolerance Mat2<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat2<Real>::Tolerance Mat2<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(1e-10) };
 
 //
 //  Constructors
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..69b53cb 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -9,7 +9,7 @@ template <class Real>
 const Mat3<Real> Mat3<Real>::One = Mat3<Real>(Real(1));
 
 template <class Real>
-const typename Mat3<Real>::Tolerance Mat3<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat3<Real>::Tolerance Mat3<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(1e-10) };
 
 //
 //  Constructors
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..d075e76 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -14,7 +14,7 @@ template <class Real>
 const Mat4<Real> Mat4<Real>::One = Mat4<Real>(Real(1));
 
 template <class Real>
-const typename Mat4<Real>::Tolerance Mat4<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat4<Real>::Tolerance Mat4<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(1e-10) };
 
 //
 //  Constructors
-- 
2.43.0


From 0221f151913a6e74f5bcbf402f74fd134c828301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 08/39] fix: rotating a Mat3 about a coordinate axis updates
 its flags

An identity stayed flagged identity after it was turned, so multiplying by it
was skipped.
---
 libs/mathlib/include/impl/mat3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 69b53cb..44b00fc 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -519,7 +519,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -614,7 +614,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -781,7 +781,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -873,7 +873,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
-- 
2.43.0


From 3adec001e0cb099865d6d631571a2979eecc47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 09/39] fix: products and transposes do not claim classes their
 elements lack

Orthogonal or normal columns alone do not survive multiplication or
transposition, and transposing a 4x4 matrix moves its offset to the projective
part; the flags were carried over all the same.
---
 libs/mathlib/include/impl/mat2.h | 23 +++++++++++++++++++----
 libs/mathlib/include/impl/mat3.h | 31 +++++++++++++++++++++++--------
 libs/mathlib/include/impl/mat4.h | 22 ++++++++++++++++++----
 libs/mathlib/include/mat2.h      |  2 ++
 libs/mathlib/include/mat3.h      |  2 ++
 libs/mathlib/include/mat4.h      |  2 ++
 6 files changed, 66 insertions(+), 16 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index a4a6ce3..8ca23d1 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -103,7 +103,7 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	y.x = ta * m.y.x + tb * m.y.y;
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
-	flags &= m.flags;
+	flags = productFlags(flags, m.flags);
 	return *this;
 }
 
@@ -249,8 +249,8 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
-	return *this;
+	// only orthonormality is known to survive transposition
+	return isOrthonormal() ? *this : optimize();
 }
 
 template <class Real>
@@ -360,6 +360,9 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.y.x = x.y;
 	r.y.y = y.y;
 	r.flags = flags;
+	// only orthonormality is known to survive transposition
+	if (!isOrthonormal())
+		r.optimize();
 	return r;
 }
 
@@ -536,8 +539,20 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.y.x = a.x.x * b.y.x + a.y.x * b.y.y;
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
-		dest.flags = a.flags & b.flags;
+		dest.flags = productFlags(a.flags, b.flags);
 	}
 }
 
+//
+// The columns of a product keep nothing of the operands but orthonormality.
+//
+template <class Real>
+unsigned int Mat2<Real>::productFlags(unsigned int a, unsigned int b)
+{
+	unsigned int common = a & b;
+	if ((common & Flags::Orthonormal) != Flags::Orthonormal)
+		common &= ~Flags::Orthonormal;
+	return common;
+}
+
 MATHLIB_NS_END
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 44b00fc..f834117 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -336,7 +336,7 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	x.z = tg * m.x.x + th * m.x.y + z.z * m.x.z;
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
-	flags &= m.flags;
+	flags = productFlags(flags, m.flags);
 	return *this;
 }
 
@@ -448,7 +448,7 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-	flags &= m.flags;
+	flags = productFlags(flags, m.flags);
 
 	return *this;
 }
@@ -543,7 +543,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-	flags &= m.flags;
+	flags = productFlags(flags, m.flags);
 
 	return *this;
 }
@@ -663,8 +663,8 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
-	return *this;
+	// only orthonormality is known to survive transposition
+	return isOrthonormal() ? *this : optimize();
 }
 
 template <class Real>
@@ -716,7 +716,7 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-    r.flags = flags & m.flags;
+    r.flags = productFlags(flags, m.flags);
 
     return r;
 }
@@ -808,7 +808,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-    r.flags = flags & m.flags;
+    r.flags = productFlags(flags, m.flags);
 
     return r;
 }
@@ -891,6 +891,9 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.y = y.z;
 	r.z.z = z.z;
 	r.flags = flags;
+	// only orthonormality is known to survive transposition
+	if (!isOrthonormal())
+		r.optimize();
 	return r;
 }
 
@@ -1084,8 +1087,20 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.x.z = a.x.z * b.x.x + a.y.z * b.x.y + a.z.z * b.x.z;
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
-		dest.flags = a.flags & b.flags;
+		dest.flags = productFlags(a.flags, b.flags);
 	}
 }
 
+//
+// The columns of a product keep nothing of the operands but orthonormality.
+//
+template <class Real>
+unsigned int Mat3<Real>::productFlags(unsigned int a, unsigned int b)
+{
+	unsigned int common = a & b;
+	if ((common & Flags::Orthonormal) != Flags::Orthonormal)
+		common &= ~Flags::Orthonormal;
+	return common;
+}
+
 MATHLIB_NS_END
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index d075e76..8642aa2 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,8 +645,8 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	// the offset moves to the projective part, and normal columns to rows
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +914,8 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	// the offset moves to the projective part, and normal columns to rows
+	r.optimize();
 
 	return r;
 }
@@ -1304,8 +1305,21 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.z.w = a.x.w * b.z.x + a.y.w * b.z.y + a.z.w * b.z.z + a.t.w * b.z.w;
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
-		dest.flags = a.flags & b.flags;
+		dest.flags = productFlags(a.flags, b.flags);
 	}
 }
 
+//
+// The columns of a product keep nothing of the operands but orthonormality,
+// which for a projective matrix does not cover all four columns.
+//
+template <class Real>
+unsigned int Mat4<Real>::productFlags(unsigned int a, unsigned int b)
+{
+	unsigned int common = a & b;
+	if (!(common & Flags::Trs) || (common & Flags::Orthonormal) != Flags::Orthonormal)
+		common &= ~Flags::Orthonormal;
+	return common;
+}
+
 MATHLIB_NS_END
diff --git a/libs/mathlib/include/mat2.h b/libs/mathlib/include/mat2.h
index 480abfa..9c3483e 100644
--- a/libs/mathlib/include/mat2.h
+++ b/libs/mathlib/include/mat2.h
@@ -105,6 +105,8 @@ private:
 		Uninitialized	= 0x8
 	};
 
+	static unsigned int productFlags(unsigned int a, unsigned int b);
+
 	unsigned int flags;
 };
 
diff --git a/libs/mathlib/include/mat3.h b/libs/mathlib/include/mat3.h
index 5f278a1..aadb132 100644
--- a/libs/mathlib/include/mat3.h
+++ b/libs/mathlib/include/mat3.h
@@ -120,6 +120,8 @@ private:
 		Uninitialized = 0x8
 	};
 
+	static unsigned int productFlags(unsigned int a, unsigned int b);
+
 	unsigned int flags;
 
 public:
diff --git a/libs/mathlib/include/mat4.h b/libs/mathlib/include/mat4.h
index 1080d27..d7fcf68 100644
--- a/libs/mathlib/include/mat4.h
+++ b/libs/mathlib/include/mat4.h
@@ -145,6 +145,8 @@ private:
 		Uninitialized = 0x10
 	};
 
+	static unsigned int productFlags(unsigned int a, unsigned int b);
+
 	unsigned int flags;
 
 public:
-- 
2.43.0


From fa8c51038e14b35366c32ac2c270d011cb781bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 10/39] fix: multiplying a matrix in place by itself

The elements were overwritten while they were still being read.
---
 libs/mathlib/include/impl/mat2.h | 2 ++
 libs/mathlib/include/impl/mat3.h | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 8ca23d1..60acabc 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -98,6 +98,8 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (&m == this)
+		return set(*this * m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y;
 	x.x = ta * m.x.x + tb * m.x.y;
 	y.x = ta * m.y.x + tb * m.y.y;
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index f834117..0d261a1 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -326,6 +326,8 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (&m == this)
+		return set(*this * m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y, tg = x.z, th = y.z;
 	x.x = ta * m.x.x + tb * m.x.y + z.x * m.x.z;
 	y.x = ta * m.y.x + tb * m.y.y + z.x * m.y.z;
@@ -436,6 +438,9 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (&m == this)
+		return set(*this * m);
+
 	Real x_x = x.x, y_x = y.x, z_x = z.x, x_y = x.y, y_y = y.y, z_y = z.y;
 
 	x.x = m.x.x * x_x + m.y.x * x_y + m.z.x * x.z;
@@ -531,6 +536,9 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (&m == this)
+		return set(*this * m);
+
 	Real x_x = x.x, x_y = x.y, x_z = x.z, y_x = y.x, y_y = y.y, y_z = y.z;
 
 	x.x = x_x * m.x.x + y_x * m.x.y + z.x * m.x.z;
-- 
2.43.0


From 3b64905db70543d523d9a3276d206a2616ca7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 11/39] fix: only affine 4x4 matrices are inverted by
 transposing their axes

The fast path leaves the projective part alone, so a projective matrix with
orthonormal columns was inverted wrongly.
---
 libs/mathlib/include/impl/mat4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 8642aa2..6bc6777 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -652,7 +652,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	if (isOrthonormal() && isTrs())
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -952,7 +952,7 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	if (isOrthonormal() && isTrs())
 	{
 		Mat4<Real> result;
 
-- 
2.43.0


From 31dbc5acf2da92706ac772428bb888b839c0107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 12/39] fix: moving a projective 4x4 matrix drops its normal
 flag

The offset column counts towards normality when the matrix is not affine.
---
 libs/mathlib/include/impl/mat4.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 6bc6777..c0db88d 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -481,6 +481,8 @@ Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -554,6 +556,8 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
-- 
2.43.0


From 8a1aa2e926665df6b5140a3c88052572eebc1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 13/39] fix: Mat4 can be built from and set to a Mat3

The constructor and the setter were declared and never defined.
---
 libs/mathlib/include/impl/mat4.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index c0db88d..41b5e7c 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -40,6 +40,13 @@ Mat4<Real>::Mat4(Real k)
 	}
 }
 
+template <class Real>
+Mat4<Real>::Mat4(const Mat3<Real>& m, const Vec3<Real>& t)
+	: flags(Flags::Uninitialized)
+{
+	set(m, t);
+}
+
 template <class Real>
 Mat4<Real>::Mat4(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z, const Vec3<Real>& t)
 	: flags(Flags::Uninitialized)
@@ -81,6 +88,12 @@ Mat4<Real>& Mat4<Real>::set(const Mat4<Real>& m)
 	return *this;
 }
 
+template <class Real>
+Mat4<Real>& Mat4<Real>::set(const Mat3<Real>& rs, const Vec3<Real>& t)
+{
+	return set(rs.x, rs.y, rs.z, t);
+}
+
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Quat<Real>& q, const Vec3<Real>& t)
 {
-- 
2.43.0


From 069f6942cc61cf0975c32cdfba760b0af47fdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 14/39] fix: transforming a vector in place

The components were overwritten while they were still being read.
---
 libs/mathlib/include/impl/mat2.h  |  6 ++++--
 libs/mathlib/include/impl/mat3.h  |  8 ++++---
 libs/mathlib/include/impl/mat34.h |  8 ++++---
 libs/mathlib/include/impl/mat4.h  | 36 +++++++++++++++++++------------
 4 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 60acabc..ae335e2 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -495,8 +495,10 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
-	dest.y = src.x * x.y + src.y * y.y;
+	// dest may be src
+	const Vec2<Real> u(src);
+	dest.x = u.x * x.x + u.y * y.x;
+	dest.y = u.x * x.y + u.y * y.y;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 0d261a1..ec13b4b 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -1043,9 +1043,11 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	// dest may be src
+	const Vec3<Real> u(src);
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..39f3068 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -556,9 +556,11 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
-	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	// dest may be src
+	const Vec3<Real> u(src);
+	dest.x = u.x * rs.x.x + u.y * rs.y.x + u.z * rs.z.x + t.x;
+	dest.y = u.x * rs.x.y + u.y * rs.y.y + u.z * rs.z.y + t.y;
+	dest.z = u.x * rs.x.z + u.y * rs.y.z + u.z * rs.z.z + t.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 41b5e7c..e7534ef 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1164,9 +1164,11 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	// dest may be src
+	const Vec3<Real> u(src);
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x + t.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y + t.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z + t.z;
 }
 
 template <class Real>
@@ -1195,10 +1197,12 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	// dest may be src
+	const Vec4<Real> u(src);
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x + u.w * t.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y + u.w * t.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z + u.w * t.z;
+	dest.w = u.x * x.w + u.y * y.w + u.z * z.w + u.w * t.w;
 }
 
 template <class Real>
@@ -1227,9 +1231,11 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	// dest may be src
+	const Vec3<Real> u(src);
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
 }
 
 template <class Real>
@@ -1258,10 +1264,12 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	// dest may be src
+	const Vec4<Real> u(src);
+	dest.x = u.x * x.x + u.y * y.x + u.z * z.x;
+	dest.y = u.x * x.y + u.y * y.y + u.z * z.y;
+	dest.z = u.x * x.z + u.y * y.z + u.z * z.z;
+	dest.w = u.x * x.w + u.y * y.w + u.z * z.w;
 }
 
 template <class Real>
-- 
2.43.0


From 33d69b7a2373682d8a70fa882f436e743b3cb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 15/39] fix: products and scalings of matrices classify their
 result anew

Taking the classes of a product from its operands lets the error of nearly
orthonormal ones grow without bound (m *= m keeps the class while the scale
doubles each time), and scaling a Mat4 kept the orthogonality of small axes
that are only orthogonal within the absolute tolerance.
---
 libs/mathlib/include/impl/mat2.h | 17 ++---------------
 libs/mathlib/include/impl/mat3.h | 29 ++++++-----------------------
 libs/mathlib/include/impl/mat4.h | 29 +++--------------------------
 libs/mathlib/include/mat2.h      |  2 --
 libs/mathlib/include/mat3.h      |  2 --
 libs/mathlib/include/mat4.h      |  2 --
 6 files changed, 11 insertions(+), 70 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index ae335e2..f82a5f8 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -105,8 +105,7 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	y.x = ta * m.y.x + tb * m.y.y;
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
-	flags = productFlags(flags, m.flags);
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -543,20 +542,8 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.y.x = a.x.x * b.y.x + a.y.x * b.y.y;
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
-		dest.flags = productFlags(a.flags, b.flags);
+		dest.optimize();
 	}
 }
 
-//
-// The columns of a product keep nothing of the operands but orthonormality.
-//
-template <class Real>
-unsigned int Mat2<Real>::productFlags(unsigned int a, unsigned int b)
-{
-	unsigned int common = a & b;
-	if ((common & Flags::Orthonormal) != Flags::Orthonormal)
-		common &= ~Flags::Orthonormal;
-	return common;
-}
-
 MATHLIB_NS_END
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index ec13b4b..15dc87f 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -338,8 +338,7 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	x.z = tg * m.x.x + th * m.x.y + z.z * m.x.z;
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
-	flags = productFlags(flags, m.flags);
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -453,9 +452,7 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-	flags = productFlags(flags, m.flags);
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -551,9 +548,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-	flags = productFlags(flags, m.flags);
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -724,7 +719,7 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-    r.flags = productFlags(flags, m.flags);
+    r.optimize();
 
     return r;
 }
@@ -816,7 +811,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-    r.flags = productFlags(flags, m.flags);
+    r.optimize();
 
     return r;
 }
@@ -1097,20 +1092,8 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.x.z = a.x.z * b.x.x + a.y.z * b.x.y + a.z.z * b.x.z;
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
-		dest.flags = productFlags(a.flags, b.flags);
+		dest.optimize();
 	}
 }
 
-//
-// The columns of a product keep nothing of the operands but orthonormality.
-//
-template <class Real>
-unsigned int Mat3<Real>::productFlags(unsigned int a, unsigned int b)
-{
-	unsigned int common = a & b;
-	if ((common & Flags::Orthonormal) != Flags::Orthonormal)
-		common &= ~Flags::Orthonormal;
-	return common;
-}
-
 MATHLIB_NS_END
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index e7534ef..fe4123c 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -511,12 +511,7 @@ Mat4<Real>& Mat4<Real>::scale(const Vec3<Real>& coefficients)
 	t.x *= coefficients.x;
 	t.y *= coefficients.y;
 	t.z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -583,12 +578,7 @@ Mat4<Real>& Mat4<Real>::scalePre(const Vec3<Real>& coefficients)
 	x *= coefficients.x;
 	y *= coefficients.y;
 	z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -1330,21 +1320,8 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.z.w = a.x.w * b.z.x + a.y.w * b.z.y + a.z.w * b.z.z + a.t.w * b.z.w;
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
-		dest.flags = productFlags(a.flags, b.flags);
+		dest.optimize();
 	}
 }
 
-//
-// The columns of a product keep nothing of the operands but orthonormality,
-// which for a projective matrix does not cover all four columns.
-//
-template <class Real>
-unsigned int Mat4<Real>::productFlags(unsigned int a, unsigned int b)
-{
-	unsigned int common = a & b;
-	if (!(common & Flags::Trs) || (common & Flags::Orthonormal) != Flags::Orthonormal)
-		common &= ~Flags::Orthonormal;
-	return common;
-}
-
 MATHLIB_NS_END
diff --git a/libs/mathlib/include/mat2.h b/libs/mathlib/include/mat2.h
index 9c3483e..480abfa 100644
--- a/libs/mathlib/include/mat2.h
+++ b/libs/mathlib/include/mat2.h
@@ -105,8 +105,6 @@ private:
 		Uninitialized	= 0x8
 	};
 
-	static unsigned int productFlags(unsigned int a, unsigned int b);
-
 	unsigned int flags;
 };
 
diff --git a/libs/mathlib/include/mat3.h b/libs/mathlib/include/mat3.h
index aadb132..5f278a1 100644
--- a/libs/mathlib/include/mat3.h
+++ b/libs/mathlib/include/mat3.h
@@ -120,8 +120,6 @@ private:
 		Uninitialized = 0x8
 	};
 
-	static unsigned int productFlags(unsigned int a, unsigned int b);
-
 	unsigned int flags;
 
 public:
diff --git a/libs/mathlib/include/mat4.h b/libs/mathlib/include/mat4.h
index d7fcf68..1080d27 100644
--- a/libs/mathlib/include/mat4.h
+++ b/libs/mathlib/include/mat4.h
@@ -145,8 +145,6 @@ private:
 		Uninitialized = 0x10
 	};
 
-	static unsigned int productFlags(unsigned int a, unsigned int b);
-
 	unsigned int flags;
 
 public:
-- 
2.43.0


From a76dc968e1a31e3056ba8c6ede5a0a24bc34b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 16/39] fix: the inverse of a Mat4 of determinant one is
 initialized and classified

---
 libs/mathlib/include/impl/mat4.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index fe4123c..8de7deb 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -721,7 +721,14 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	if (det == Real(0))
+		return set(Zero);
+
+	inv /= det;
+
+	inv.optimize();
+
+	return set(inv);
 }
 
 
-- 
2.43.0


From 4026eba889a9d8a2a01d57d555a3b26a3c06c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:06 +0000
Subject: [PATCH 17/39] fix: transforming a Mat34 by its own linear part

---
 libs/mathlib/include/impl/mat34.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 39f3068..ae773b6 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -342,8 +342,8 @@ Mat34<Real>& Mat34<Real>::transform(const Mat3<Real>& m)
 {
 	// r * v = m * (rs * v + t)
 	//       = (m * rs) * v + (m * t)
-	rs.rotate(m);
 	t = m * t;
+	rs.rotate(m);
 	return *this;
 }
 
-- 
2.43.0


From b9e77b5f81267d7b200666200fa6a13614b91760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 18/39] fix: AABB hits() tests that the slabs are entered
 together

A ray or line starting between two faces of one axis but outside the box
along another was never reported to hit, and one passing beside a corner
was: the exit distances were ignored.
---
 libs/mathlib/include/impl/aabb2.h | 31 ++++++++++--------------
 libs/mathlib/include/impl/aabb3.h | 39 +++++++++++--------------------
 2 files changed, 26 insertions(+), 44 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..8f84a34 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -384,7 +384,9 @@ bool AABB2<Real>::contains(const AABB2<Real>& box) const
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
-    t = Real(0);
+    // The box is hit where it is entered: every slab has to be entered before any is left
+    t = std::numeric_limits<Real>::lowest();
+    Real tout = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -401,10 +403,8 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -422,19 +422,19 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
-    return true;
+    return t >= Real(0) && t <= tout;
 }
 
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
-    t = Real(0);
+    // The box is hit where it is entered: every slab has to be entered before any is left
+    t = std::numeric_limits<Real>::lowest();
+    Real tout = std::numeric_limits<Real>::max();
 
     Vec2<Real> delta = line.end - line.start;
 
@@ -453,10 +453,8 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (delta.y == Real(0))
@@ -474,16 +472,11 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
-    if (t > Real(1))
-        return false;
-    
-    return true;
+    return t >= Real(0) && t <= Real(1) && t <= tout;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..eb2c5f8 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -405,7 +405,9 @@ bool AABB3<Real>::contains(const AABB3<Real>& box) const
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
-    t = Real(0);
+    // The box is hit where it is entered: every slab has to be entered before any is left
+    t = std::numeric_limits<Real>::lowest();
+    Real tout = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -422,10 +424,8 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +443,8 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (ray.direction.z == Real(0))
@@ -464,19 +462,19 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
-    return true;
+    return t >= Real(0) && t <= tout;
 }
 
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
-    t = Real(0);
+    // The box is hit where it is entered: every slab has to be entered before any is left
+    t = std::numeric_limits<Real>::lowest();
+    Real tout = std::numeric_limits<Real>::max();
 
     Vec3<Real> delta = line.end - line.start;
 
@@ -495,10 +493,8 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (delta.y == Real(0))
@@ -516,10 +512,8 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
     if (delta.z == Real(0))
@@ -537,16 +531,11 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
         t = std::max(t, tinf);
+        tout = std::min(tout, tsup);
     }
 
-    if (t > Real(1))
-        return false;
-    
-    return true;
+    return t >= Real(0) && t <= Real(1) && t <= tout;
 }
 
 template <class Real>
-- 
2.43.0


From 4727e61875a1377cfb4ac00f4236eca3eb37a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 19/39] fix: moving an AABB by one of its own corners

---
 libs/mathlib/include/impl/aabb2.h | 10 ++++++----
 libs/mathlib/include/impl/aabb3.h | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index 8f84a34..24443d6 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -204,16 +204,18 @@ AABB2<Real> AABB2<Real>::fromUnion(const AABB2<Real>& a, const AABB2<Real>& b)
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator+= (const Vec2<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec2<Real> delta = t; // t may be one of the corners
+	inf += delta;
+    sup += delta;
 	return *this;
 }
 
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator-= (const Vec2<Real>& t)
 {
-	inf -= t;
-    sup -= t;
+	const Vec2<Real> delta = t; // t may be one of the corners
+	inf -= delta;
+    sup -= delta;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index eb2c5f8..c66bbd9 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -216,16 +216,18 @@ AABB3<Real> AABB3<Real>::fromUnion(const AABB3<Real>& a, const AABB3<Real>& b)
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator+= (const Vec3<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec3<Real> delta = t; // t may be one of the corners
+	inf += delta;
+    sup += delta;
 	return *this;
 }
 
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator-= (const Vec3<Real>& t)
 {
-    inf -= t;
-    sup -= t;
+	const Vec3<Real> delta = t; // t may be one of the corners
+    inf -= delta;
+    sup -= delta;
 	return *this;
 }
 
-- 
2.43.0


From a19c52e9e304262581a4553dce566c67b07424bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:45 +0000
Subject: [PATCH 20/39] fix: distance from a Line3 or Ray3 to points on it

---
 libs/mathlib/include/impl/line3.h |  6 ++----
 libs/mathlib/include/impl/ray3.h  | 11 ++++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..2ec88fb 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -64,12 +64,10 @@ template <class Real>
 Real Line3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> d = end - start;
-	Vec3<Real> northo = (point - start) % d;
-	Vec3<Real> n = d % northo;
-	Real l = n.normalize();
+	Real l = d.length();
 	return (l == Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: ((point - start) % d).length() / l;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/ray3.h b/libs/mathlib/include/impl/ray3.h
index 6361383..ee01eb9 100644
--- a/libs/mathlib/include/impl/ray3.h
+++ b/libs/mathlib/include/impl/ray3.h
@@ -45,12 +45,13 @@ Vec3<Real> Ray3<Real>::pointAt(Real dist) const
 template <class Real>
 Real Ray3<Real>::distance(const Vec3<Real>& point) const
 {
-	Vec3<Real> northo = (point - start) % direction;
-	Vec3<Real> n = direction % northo;
-	Real l = n.normalize();
-	return (l == Real(0))
+	Vec3<Real> delta = point - start;
+	Vec3<Real> northo = delta % direction;
+	Real l = direction.length();
+	// Points straight behind the start are measured from the start
+	return (l == Real(0) || (northo.isNull() && delta * direction < Real(0)))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: northo.length() / l;
 }
 
 template <class Real>
-- 
2.43.0


From c31d5bb2b8678126d6901313b8287d85ef225d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:45 +0000
Subject: [PATCH 21/39] fix: Plane::project along a direction on planes off the
 origin

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..0ea12d5 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * ((point * normal - d) / f);
 
 	return true;
 }
-- 
2.43.0


From c96f8cb96dde7796e4bc82e170d50771a212d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:45 +0000
Subject: [PATCH 22/39] fix: Frustum tests measure in their own precision

---
 libs/mathlib/include/impl/frustum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..77497b2 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,9 +85,9 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
-        if (distance > 0.0f)
+        if (distance > Real(0))
         {
 			return false;
         }
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From 4112656fc5c25f15628eccb342d95baa27702ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 23/39] fix: splitting a BezierSegment3 into itself

---
 libs/mathlib/include/impl/spline3.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..831c9bd 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -290,15 +290,21 @@ void BezierSegment3<Real>::split(Real a, BezierSegment3 &start, BezierSegment3 &
 	Real ca2 = ca * ca;
 	Real ca3 = ca * ca2;
 
-	start.P1	= P1;
-	start.P2	= P1 * ca	+ P2 * a;
-	start.P3	= P1 * ca2	+ P2 * (Real(2)*a*ca)	+ P3 * a2;
-	start.P4	= P1 * ca3	+ P2 * (Real(3)*a*ca2)	+ P3 * (Real(3)*a2*ca)	+ P4 * a3;
+	// Either result may be this segment
+	BezierSegment3 s, e;
+
+	s.P1	= P1;
+	s.P2	= P1 * ca	+ P2 * a;
+	s.P3	= P1 * ca2	+ P2 * (Real(2)*a*ca)	+ P3 * a2;
+	s.P4	= P1 * ca3	+ P2 * (Real(3)*a*ca2)	+ P3 * (Real(3)*a2*ca)	+ P4 * a3;
 	
-	end.P1		= P1 * ca3	+ P2 * (Real(3)*a*ca2)	+ P3 * (Real(3)*a2*ca)	+ P4 * a3;
-	end.P2		=			  P2 * ca2				+ P3 * (Real(2)*a*ca)	+ P4 * a2;
-	end.P3		=									  P3 * ca				+ P4 * a;
-	end.P4		=															  P4;
+	e.P1	= P1 * ca3	+ P2 * (Real(3)*a*ca2)	+ P3 * (Real(3)*a2*ca)	+ P4 * a3;
+	e.P2	=			  P2 * ca2				+ P3 * (Real(2)*a*ca)	+ P4 * a2;
+	e.P3	=									  P3 * ca				+ P4 * a;
+	e.P4	=															  P4;
+
+	start = s;
+	end = e;
 }
 
 template <class Real>
-- 
2.43.0


From 249573d0c0bbce67167ff58232e0ec3d1fb5a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 24/39] fix: closed spline through two points

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 831c9bd..5012dec 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -626,8 +626,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// With two points the previous and the next are the same one
+	a[0]       += Real(4);	a[1]           += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);	a[(n-1)*n+n-1] += Real(4);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0


From 34d27c1e48a8db14fdedf083e88272db8da1bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 25/39] fix: TriDiagonal::solveCyclic reports singular systems

---
 libs/mathlib/include/impl/linearequations.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..f21d15b 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -103,11 +103,20 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real den = Real(1) + z[0] + beta * z[n-1] / gamma;
+			if (den == Real(0))
+			{
+				// Singular matrix
+				result = false;
+			}
+			else
+			{
+				Real fact = (x[0] + beta * x[n-1] / gamma) / den;
 
-			// Now get the solution vector x
-			for (int i = 0; i < n; i++)
-				x[i] -= fact * z[i];
+				// Now get the solution vector x
+				for (int i = 0; i < n; i++)
+					x[i] -= fact * z[i];
+			}
 		}
 	}
 	
-- 
2.43.0


From 387908552ba8597376bd50501a3c5df8589c94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 26/39] fix: GaussJordan::solve leaves the inverse in the
 matrix

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f21d15b..9dafdbe 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -211,9 +211,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -224,9 +224,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0


From 71b9d4ee23383e8462454ee963be890c1f48c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 27/39] fix: GaussJordan::solve searches its pivots in its own
 precision

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 9dafdbe..fd52d7c 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -164,9 +164,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = MATHLIB_NS::abs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
-- 
2.43.0


From d82532a492155c36f5fba535e49f45289aeab672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:33 +0000
Subject: [PATCH 28/39] fix: quartic and quintic easing evaluate in their own
 precision

The out and in-out modes kept the shifted ratio in a float, so their double
versions were only good to seven digits.
---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index 49e8143..f191b7a 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0


From 635bc8b550a5b258d0feda40b17720694b01113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:21 +0000
Subject: [PATCH 29/39] fix: fmodPositive stays below the modulus

For a tiny negative argument adding the modulus rounded to the modulus
itself, and ColorHSV::toRGB then left its result uninitialised.
---
 libs/mathlib/include/functions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..4247fe6 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -124,7 +124,13 @@ Real fmodPositive(Real x, Real y)
 {
 	assert(y > Real(0));
 	Real r = ::fmod(x, y);
-	return (r >= Real(0)) ? r : y + r;
+	if (r < Real(0))
+	{
+		r += y;
+		if (r >= y)	// rounded up
+			r = Real(0);
+	}
+	return r;
 }
 
 template <class Real>
-- 
2.43.0


From 8bcba553dd5d42cbd337a871554cc2a7a7294a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:41 +0000
Subject: [PATCH 30/39] fix: floating point randAmplitude(from, to) takes both
 signs

It tested the sign of ::rand(), which is never negative, so the negative band
that the integer version draws from was never reached.
---
 libs/mathlib/include/functions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 4247fe6..3022b5d 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -106,10 +106,8 @@ Real randAmplitude(Real f)
 template <class Real>
 Real randAmplitude(Real from, Real to)
 {
-	int r = ::rand();
-	return (r >= 0)
-		? (from + Real(r) * (to - from) / Real(RAND_MAX))
-		: -(from + Real(r) * (to - from) / Real(RAND_MAX));
+	Real r = randAmplitude(to - from);
+	return (r >= Real(0)) ? from + r : -from + r;
 }
 
 template <class Real>
-- 
2.43.0


From 46a7f27fdc0b3cc054ed93480fc24c8fde356300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:12 +0000
Subject: [PATCH 31/39] fix: random unit vectors point in every direction

Their coordinates were drawn from [0, 1], so only the first quadrant (octant)
was reached.
---
 libs/mathlib/include/impl/vec2.h | 4 ++--
 libs/mathlib/include/impl/vec3.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index 82dac3b..a88659f 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -531,8 +531,8 @@ Vec2<Real> Vec2<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
 
 		l = n.normalize();
 
diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index 25aa7b6..860e6eb 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -763,9 +763,9 @@ Vec3<Real> Vec3<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
-		n.z = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
+		n.z = randAmplitude(Real(1));
 
 		l = n.normalize();
 
-- 
2.43.0


From cd5e7eb113904667aae3ca96ce5062ecf99c8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 32/39] fix: Tri2 contains() on triangles without area accepts
 only the segment of the corners

---
 libs/mathlib/include/impl/tri2.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/mathlib/include/impl/tri2.h b/libs/mathlib/include/impl/tri2.h
index 097852e..badc5a4 100644
--- a/libs/mathlib/include/impl/tri2.h
+++ b/libs/mathlib/include/impl/tri2.h
@@ -44,6 +44,14 @@ bool Tri2<Real>::contains(const Vec2<Real> &p) const
     Real cross2 = Vec2<Real>::crossProduct(b, c, p);
     Real cross3 = Vec2<Real>::crossProduct(c, a, p);
 
+	if (cross1 == Real(0) && cross2 == Real(0) && cross3 == Real(0))
+	{
+		// On the line of a triangle without area: the corners span a segment of it
+		Vec2<Real> inf = Vec2<Real>::min(a, Vec2<Real>::min(b, c));
+		Vec2<Real> sup = Vec2<Real>::max(a, Vec2<Real>::max(b, c));
+		return p.x >= inf.x && p.x <= sup.x && p.y >= inf.y && p.y <= sup.y;
+	}
+
     return (cross1 >= Real(0) && cross2 >= Real(0) && cross3 >= Real(0))
 		|| (cross1 <= Real(0) && cross2 <= Real(0) && cross3 <= Real(0));
 }
-- 
2.43.0


From 7f740850e17e5997d548d0c3e62d48089a5c7081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 33/39] fix: Vec3 slerp and slerpMaxAngle of opposite vectors
 turn through a half circle

---
 libs/mathlib/include/impl/vec3.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index 860e6eb..118f0b8 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -127,7 +127,7 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		Real sinAngle = n * n.normalized();
 		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (sinAngle == Real(0) || (MATHLIB_NS::abs(sinAngle) < 0.05f && cosAngle > Real(0)))
+		if (MATHLIB_NS::abs(sinAngle) < 0.05f && cosAngle > Real(0))
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -138,6 +138,10 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		{
 			Real angle = atan2(sinAngle, cosAngle);
 
+			// opposite vectors do not select a plane, any one through them will do
+			if (sinAngle <= Real(1024) * std::numeric_limits<Real>::epsilon())
+				n = u % u.minorCoord();
+
 			Quat<Real> q;
 			q.set(n, angle * ratio);
 
@@ -172,11 +176,16 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (sinAngle == Real(0))
+		if (sinAngle == Real(0) && cosAngle > Real(0))
 			return set(v);
 
-		Real angle = atan2(sinAngle, (u * v) / (lengthU * lengthV));
+		Real angle = atan2(sinAngle, cosAngle);
+
+		// opposite vectors do not select a plane, any one through them will do
+		if (cosAngle < Real(0) && sinAngle <= Real(1024) * std::numeric_limits<Real>::epsilon())
+			n = u % u.minorCoord();
 
 		Real actualAngle = (angle >= Real(0))
 			? ((angle > maxAngle) ? maxAngle : angle)
-- 
2.43.0


From 3b9c34da4dd2d97f54c6e9bbf6466e70346f5fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 34/39] fix: Quat toAxisAngle accepts unit quaternions whose w
 is rounded past one

---
 libs/mathlib/include/impl/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 0f63aaf..4fe44d3 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -583,7 +583,8 @@ Quat<Real> Quat<Real>::inverse() const
 template <class Real>
 void Quat<Real>::toAxisAngle(Vec3<Real> &axis, Real &angle) const
 {
-	assert(w >= Real(-1) && w <= Real(1));
+	// w may be rounded past one
+	assert(w >= Real(-1.001) && w <= Real(1.001));
 
 	Real s2 = Real(1) - w * w;
 	Real len = (Real)(x * x + y * y + z * z);
-- 
2.43.0


From 9692c605d299c77d04d6a100e026a9314a05ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 35/39] fix: matrices can be set from and scaled by their own
 columns

---
 libs/mathlib/include/impl/mat2.h  |  8 ++++++--
 libs/mathlib/include/impl/mat3.h  | 14 ++++++++++----
 libs/mathlib/include/impl/mat34.h | 27 ++++++++++++++++++---------
 libs/mathlib/include/impl/mat4.h  | 10 +++++++---
 4 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index f82a5f8..8f191cd 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -205,8 +205,10 @@ Mat2<Real>& Mat2<Real>::set(const Mat2<Real>& m)
 template <class Real>
 Mat2<Real>& Mat2<Real>::set(const Vec2<Real>& x, const Vec2<Real>& y)
 {
+	// y may be a column of this matrix
+	const Vec2<Real> cy = y;
 	this->x = x;
-	this->y = y;
+	this->y = cy;
 	return optimize();
 }
 
@@ -241,8 +243,10 @@ Mat2<Real>& Mat2<Real>::slerpMaxAngle(const Mat2& a, const Mat2& b, Real maxAngl
 template <class Real>
 Mat2<Real>& Mat2<Real>::scale(const Vec2<Real>& coefficients)
 {
+	// coefficients may be a column of this matrix
+	const Real cy = coefficients.y;
 	x *= coefficients.x;
-	y *= coefficients.y;
+	y *= cy;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 15dc87f..9a6f6d9 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -95,9 +95,12 @@ Mat3<Real>& Mat3<Real>::set(const Quat<Real>& q)
 template <class Real>
 Mat3<Real>& Mat3<Real>::set(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z)
 {
+	// the arguments may be columns of this matrix
+	const Vec3<Real> cy = y;
+	const Vec3<Real> cz = z;
 	this->x = x;
-	this->y = y;
-	this->z = z;
+	this->y = cy;
+	this->z = cz;
 	return optimize();
 }
 
@@ -422,9 +425,12 @@ bool Mat3<Real>::operator!=(const Mat3 &m) const
 template <class Real>
 Mat3<Real>& Mat3<Real>::scale(const Vec3<Real>& coefficients)
 {
+	// coefficients may be a column of this matrix
+	const Real cy = coefficients.y;
+	const Real cz = coefficients.z;
 	x *= coefficients.x;
-	y *= coefficients.y;
-	z *= coefficients.z;
+	y *= cy;
+	z *= cz;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index ae773b6..6fc1ed9 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -64,8 +64,9 @@ Mat34<Real>& Mat34<Real>::set(const Mat34& m)
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Mat3<Real> &rs, const Vec3<Real> &t)
 {
-	this->rs = rs;
+	// t may be a column of this matrix
 	this->t = t;
+	this->rs = rs;
 	return *this;
 }
 
@@ -73,8 +74,10 @@ template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Vec3<Real> &x, const Vec3<Real> &y,
                               const Vec3<Real> &z, const Vec3<Real> &t)
 {
+	// the arguments may be columns of this matrix
+	const Vec3<Real> ct = t;
 	this->rs.set(x, y, z);
-	this->t = t;
+	this->t = ct;
 	return *this;
 }
 
@@ -89,24 +92,28 @@ Mat34<Real>& Mat34<Real>::set(Coord ecoord, const Vec3<Real>& exact, Coord acoor
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Vec3<Real> &axis, Real angle, const Vec3<Real>& t)
 {
+	// t may be a column of this matrix
+	const Vec3<Real> ct = t;
 	this->rs.set(axis, angle);
-	this->t = t;
+	this->t = ct;
 	return *this;
 }
 
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(Coord axis, Real angle, const Vec3<Real>& t)
 {
-	this->rs.set(axis, angle);
+	// t may be a column of this matrix
 	this->t = t;
+	this->rs.set(axis, angle);
 	return *this;
 }
 
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Quat<Real> &q, const Vec3<Real>& t)
 {
-	this->rs.set(q);
+	// t may be a column of this matrix
 	this->t = t;
+	this->rs.set(q);
 	return *this;
 }
 
@@ -330,10 +337,12 @@ Mat34<Real>& Mat34<Real>::scale(const Vec3<Real>& coefficients)
 {
 	// r * v = scale * (rs * v + t)
 	//       = (scale * rs) * v + (scale * t)
-	rs.scale(coefficients);
-	t.x *= coefficients.x;
-	t.y *= coefficients.y;
-	t.z *= coefficients.z;
+	// coefficients may be a column of this matrix
+	const Vec3<Real> c = coefficients;
+	rs.scale(c);
+	t.x *= c.x;
+	t.y *= c.y;
+	t.z *= c.z;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 8de7deb..4f84574 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -140,10 +140,14 @@ Mat4<Real>& Mat4<Real>::set(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Vec4<Real>& x, const Vec4<Real>& y, const Vec4<Real>& z, const Vec4<Real>& t)
 {
+	// the arguments may be columns of this matrix
+	const Vec4<Real> cy = y;
+	const Vec4<Real> cz = z;
+	const Vec4<Real> ct = t;
 	this->x.set(x);
-	this->y.set(y);
-	this->z.set(z);
-	this->t.set(t);
+	this->y.set(cy);
+	this->z.set(cz);
+	this->t.set(ct);
 	return optimize();
 }
 
-- 
2.43.0


From ac42a0419ff43e214d861360e4f48989fd71bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 36/39] fix: boxes can be set from their own corners

---
 libs/mathlib/include/impl/aabb2.h  | 18 +++++++++++-------
 libs/mathlib/include/impl/aabb3.h  | 18 +++++++++++-------
 libs/mathlib/include/impl/caabb2.h |  4 +++-
 libs/mathlib/include/impl/caabb3.h |  4 +++-
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index 24443d6..a3fc214 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -38,8 +38,10 @@ AABB2<Real>& AABB2<Real>::set(const Vec2<Real>& point)
 template <class Real>
 AABB2<Real>& AABB2<Real>::set(const Vec2<Real>& inf, const Vec2<Real>& sup)
 {
+	// sup may be a corner of this box
+	const Vec2<Real> csup = sup;
 	this->inf = inf;
-    this->sup = sup;
+    this->sup = csup;
 	return *this;
 }
 
@@ -59,8 +61,9 @@ AABB2<Real>& AABB2<Real>::set(int count, const Vec2<Real>* points)
 
 	const Vec2<Real>* p = points;
 
-	inf = *p;
-	sup = *p;
+	// the points may be the corners of this box
+	Vec2<Real> inf = *p;
+	Vec2<Real> sup = *p;
 
 	p++;
 	count--;
@@ -76,7 +79,7 @@ AABB2<Real>& AABB2<Real>::set(int count, const Vec2<Real>* points)
 		p++;
 	}
     
-    return *this;
+    return set(inf, sup);
 }
 
 template <class Real>
@@ -88,8 +91,9 @@ AABB2<Real>& AABB2<Real>::set(int count, const Vec2<Real>* points, int stride)
 	const char* p = (const char*)(points);
 	const Vec2<Real>* v = (const Vec2<Real>*)(p);
 
-	inf = *v;
-	sup = *v;
+	// the points may be the corners of this box
+	Vec2<Real> inf = *v;
+	Vec2<Real> sup = *v;
 
 	p += stride;
 	count--;
@@ -107,7 +111,7 @@ AABB2<Real>& AABB2<Real>::set(int count, const Vec2<Real>* points, int stride)
 		p += stride;
 	}
 
-	return *this;
+	return set(inf, sup);
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index c66bbd9..b986624 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -38,8 +38,10 @@ AABB3<Real>& AABB3<Real>::set(const Vec3<Real>& point)
 template <class Real>
 AABB3<Real>& AABB3<Real>::set(const Vec3<Real>& inf, const Vec3<Real>& sup)
 {
+	// sup may be a corner of this box
+	const Vec3<Real> csup = sup;
 	this->inf = inf;
-    this->sup = sup;
+    this->sup = csup;
 	return *this;
 }
 
@@ -59,8 +61,9 @@ AABB3<Real>& AABB3<Real>::set(int count, const Vec3<Real>* points)
 
 	const Vec3<Real>* p = points;
 
-	inf = *p;
-	sup = *p;
+	// the points may be the corners of this box
+	Vec3<Real> inf = *p;
+	Vec3<Real> sup = *p;
 
 	p++;
 	count--;
@@ -78,7 +81,7 @@ AABB3<Real>& AABB3<Real>::set(int count, const Vec3<Real>* points)
 		p++;
 	}
 
-	return *this;
+	return set(inf, sup);
 }
 
 template <class Real>
@@ -90,8 +93,9 @@ AABB3<Real>& AABB3<Real>::set(int count, const Vec3<Real>* points, int stride)
 	const char* p = (const char*)(points);
 	const Vec3<Real>* v = (const Vec3<Real>*)(p);
 
-	inf = *v;
-	sup = *v;
+	// the points may be the corners of this box
+	Vec3<Real> inf = *v;
+	Vec3<Real> sup = *v;
 
 	p += stride;
 	count--;
@@ -111,7 +115,7 @@ AABB3<Real>& AABB3<Real>::set(int count, const Vec3<Real>* points, int stride)
 		p += stride;
 	}
 
-	return *this;
+	return set(inf, sup);
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/caabb2.h b/libs/mathlib/include/impl/caabb2.h
index fb9f8e8..c201c67 100644
--- a/libs/mathlib/include/impl/caabb2.h
+++ b/libs/mathlib/include/impl/caabb2.h
@@ -34,8 +34,10 @@ CAABB2<Real>& CAABB2<Real>::set(const Vec2<Real>& point)
 template <class Real>
 CAABB2<Real>& CAABB2<Real>::set(const Vec2<Real>& center, const Vec2<Real>& size)
 {
+	// size may be the center of this box
+	const Vec2<Real> csize = size;
 	this->center = center;
-	this->extents = size * Real(0.5);
+	this->extents = csize * Real(0.5);
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/caabb3.h b/libs/mathlib/include/impl/caabb3.h
index 02c7fd7..44ef0b4 100644
--- a/libs/mathlib/include/impl/caabb3.h
+++ b/libs/mathlib/include/impl/caabb3.h
@@ -34,8 +34,10 @@ CAABB3<Real>& CAABB3<Real>::set(const Vec3<Real>& point)
 template <class Real>
 CAABB3<Real>& CAABB3<Real>::set(const Vec3<Real>& center, const Vec3<Real>& size)
 {
+	// size may be the center of this box
+	const Vec3<Real> csize = size;
 	this->center = center;
-	this->extents = size * Real(0.5);
+	this->extents = csize * Real(0.5);
 	return *this;
 }
 
-- 
2.43.0


From f9b55dbc4cf601c9c17358756253e50e10e3ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 37/39] fix: a plane can be set through the tip of its own
 normal

---
 libs/mathlib/include/impl/plane.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 0ea12d5..a4a77c2 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -39,8 +39,10 @@ Plane<Real>& Plane<Real>::set(const Vec3<Real>& normal, Real distance)
 template <class Real>
 Plane<Real>& Plane<Real>::set(const Vec3<Real>& point, const Vec3<Real>& normal)
 {
-    this->normal = normal.normalized();
-    this->d = this->normal * point;
+    // the point may be the normal of this plane
+    const Vec3<Real> n = normal.normalized();
+    this->d = n * point;
+    this->normal = n;
     return *this;
 }
 
-- 
2.43.0


From d9e8dc291bf9b64e604b5408205fa2872f112805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 38/39] fix: curve segments can be set from their own points,
 as when they are reversed

---
 libs/mathlib/include/impl/spline3.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 5012dec..f40ab13 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -23,10 +23,7 @@ HermiteSplineSegment3<Real>::HermiteSplineSegment3(const Vec3<Real>& p1, const V
 template <class Real>
 void HermiteSplineSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p4, const Vec3<Real>& r1, const Vec3<Real>& r4)
 {
-	P1 = p1;
-	P4 = p4;
-	R1 = r1;
-	R4 = r4;
+	*this = HermiteSplineSegment3(p1, p4, r1, r4); // the arguments may be points of this segment
 }
 
 template <class Real>
@@ -160,10 +157,7 @@ BezierSegment3<Real>::BezierSegment3(const Vec3<Real>& p1, const Vec3<Real>& p2,
 template <class Real>
 void BezierSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p2, const Vec3<Real>& p3, const Vec3<Real>& p4)
 {
-	P1 = p1;
-	P2 = p2;
-	P3 = p3;
-	P4 = p4;
+	*this = BezierSegment3(p1, p2, p3, p4); // the arguments may be points of this segment
 }
 
 template <class Real>
-- 
2.43.0


From a2bfa12f82183fd7977bff858b0cb18e0b91a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 39/39] fix: translations of projective 4x4 matrices compose
 with the projective part

translate and translatePre (and the copying forms) only moved the offset
column, unlike the rotations, so that e.g. a projection followed or preceded
by a translation was not their product.
---
 libs/mathlib/include/impl/mat4.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 4f84574..41b8856 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -494,12 +494,13 @@ Mat4<Real>& Mat4<Real>::rotate(Coord axis, Real angle)
 template <class Real>
 Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 {
+	if (!isTrs())
+		return set(translated(translation));
+
 	t += translation;
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
-		if (!isTrs())
-			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -562,14 +563,15 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 {
 	// r * v = rs * (v + translation) + t
 	//       = (rs) * v + (rs * translation + t)
+	if (!isTrs())
+		return set(translatedPre(translation));
+
 	Vec3<Real> delta;
 	transformVector(delta, translation);
 	t += delta;
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
-		if (!isTrs())
-			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -767,6 +769,14 @@ Mat4<Real> Mat4<Real>::rotated(Coord axis, Real angle) const
 template <class Real>
 Mat4<Real> Mat4<Real>::translated(const Vec3<Real>& translation) const
 {
+    if (!isTrs())
+    {
+        // the projective part of each column carries the translation along
+        return from(x + Vec4<Real>(translation * x.w, Real(0)),
+                    y + Vec4<Real>(translation * y.w, Real(0)),
+                    z + Vec4<Real>(translation * z.w, Real(0)),
+                    t + Vec4<Real>(translation * t.w, Real(0)));
+    }
     return from(x, y, z, t + Vec4<Real>(translation, Real(0)));
 }
 
@@ -828,6 +838,9 @@ Mat4<Real> Mat4<Real>::translatedPre(const Vec3<Real>& translation) const
 {
     // r * v = rs * (v + translation) + t
     //       = (rs) * v + (rs * translation + t)
+    if (!isTrs())
+        return from(x, y, z, t + x * translation.x + y * translation.y + z * translation.z);
+
     Vec3<Real> delta;
     transformVector(delta, translation);
     return from(x, y, z, t + Vec4<Real>(delta, Real(0)));
-- 
2.43.0

