// C24: cubic segments
#include "gen.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C24";
const char* pbt::RULE = "control points and tangents in general position, repeated, collinear and far apart, parameters over all of [0,1] with its ends, split parameters, 1 to 60 steps; "
	"non-trivial: at least three control points differ and the parameter is inside";

template <class R> using N_ = Num<R>;
template <class R> static V3<R> comb(const Vec3<R>* p, const N_<R>* w, int n)
{
	V3<R> s = V3<R>(p[0]) * w[0];
	for (int i = 1; i < n; i++) s = s + V3<R>(p[i]) * w[i];
	return s;
}
// Bernstein weights and their derivatives, in the order of operations of the power form (the
// looser of the forms in use)
template <class R> static void bern(R t_, N_<R>* w)
{
	typedef N_<R> N; N t(t_), t2 = t * t, t3 = t2 * t;
	w[0] = -t3 + N(3) * t2 - N(3) * t + N(1);
	w[1] = N(3) * t3 - N(6) * t2 + N(3) * t;
	w[2] = -(N(3) * t3) + N(3) * t2;
	w[3] = t3;
}
template <class R> static void dbern(R t_, N_<R>* w)
{
	typedef N_<R> N; N t(t_), t2 = t * t;
	w[0] = -(N(3) * t2) + N(6) * t - N(3);
	w[1] = N(9) * t2 - N(12) * t + N(3);
	w[2] = -(N(9) * t2) + N(6) * t;
	w[3] = N(3) * t2;
}
template <class R> static void ddbern(R t_, N_<R>* w)
{
	typedef N_<R> N; N t(t_);
	w[0] = -(N(6) * t) + N(6);
	w[1] = N(18) * t - N(12);
	w[2] = -(N(18) * t) + N(6);
	w[3] = N(6) * t;
}
// of the end points and end tangents p1, p4, r1, r4
template <class R> static void herm(R t_, N_<R>* w)
{
	typedef N_<R> N; N t(t_), t2 = t * t, t3 = t2 * t;
	w[1] = -(N(2) * t3) + N(3) * t2;
	w[0] = N(1) - w[1];
	w[2] = t3 - N(2) * t2 + t;
	w[3] = t3 - t2;
}
template <class R> static void dherm(R t_, N_<R>* w)
{
	typedef N_<R> N; N t(t_), t2 = t * t;
	w[1] = -(N(6) * t2) + N(6) * t;
	w[0] = -w[1];
	w[2] = N(3) * t2 - N(4) * t + N(1);
	w[3] = N(3) * t2 - N(2) * t;
}
template <class R> static int anyPoints(Case& c, Vec3<R>* p, int n)
{
	for (int i = 0; i < n; i++)
	{
		p[i] = i && c.draw(8) == 7 ? p[c.draw(i)] : vec3<R>(c, -4, 6);
		c.show("p", s(p[i]));
	}
	int distinct = 0;
	for (int i = 0; i < n; i++)
	{
		bool seen = false;
		for (int j = 0; j < i; j++) seen = seen || (p[i].x == p[j].x && p[i].y == p[j].y && p[i].z == p[j].z);
		distinct += !seen;
	}
	return distinct;
}
template <class R> static N_<R> w1(const N_<R>& w) { return w; }

LAW(hermite, 1)
{
	typedef HermiteSplineSegment3<Real> H; typedef Num<Real> N;
	Vec3<Real> p[4];          // p1, p4, r1, r4
	int k = anyPoints(c, p, 4);
	Real t = unit01<Real>(c);
	SHOW(t);
	c.nontrivial(k >= 3 && t > 0 && t < 1);
	H h(p[0], p[1], p[2], p[3]);
	SAME3(h.p1(), p[0]); SAME3(h.p4(), p[1]); SAME3(h.r1(), p[2]); SAME3(h.r4(), p[3]);
	H g; g.set(p[0], p[1], p[2], p[3]);
	SAME3(g.p1(), p[0]); SAME3(g.p4(), p[1]); SAME3(g.r1(), p[2]); SAME3(g.r4(), p[3]);
	N w[4];
	herm(t, w);
	NEAR3(h.pointAt(t), (comb<Real>(p, w, 4)));
	NEAR(H::hp1(t), w[0]); NEAR(H::hp4(t), w[1]); NEAR(H::hr1(t), w[2]); NEAR(H::hr4(t), w[3]);
	dherm(t, w);
	NEAR3(h.tangentAt(t), (comb<Real>(p, w, 4)));
	NEAR(H::dhp1(t), w[0]); NEAR(H::dhp4(t), w[1]); NEAR(H::dhr1(t), w[2]); NEAR(H::dhr4(t), w[3]);
	// the ends
	for (int e = 0; e < 2; e++)
	{
		herm(Real(e), w);
		NEAR3(h.pointAt(Real(e)), (comb<Real>(p, w, 4)));
		REQUIRE(w[e].v == 1 && w[1 - e].v == 0 && w[2].v == 0 && w[3].v == 0);
		dherm(Real(e), w);
		NEAR3(h.tangentAt(Real(e)), (comb<Real>(p, w, 4)));
		REQUIRE(w[2 + e].v == 1 && w[3 - e].v == 0 && w[0].v == 0 && w[1].v == 0);
	}
}

LAW(bezier, 1)
{
	typedef BezierSegment3<Real> B; typedef HermiteSplineSegment3<Real> H; typedef Num<Real> N;
	Vec3<Real> p[4];
	int k = anyPoints(c, p, 4);
	Real t = unit01<Real>(c);
	SHOW(t);
	c.nontrivial(k >= 3 && t > 0 && t < 1);
	B b(p[0], p[1], p[2], p[3]);
	SAME3(b.p1(), p[0]); SAME3(b.p2(), p[1]); SAME3(b.p3(), p[2]); SAME3(b.p4(), p[3]);
	B g; g.set(p[0], p[1], p[2], p[3]);
	SAME3(g.p1(), p[0]); SAME3(g.p2(), p[1]); SAME3(g.p3(), p[2]); SAME3(g.p4(), p[3]);
	N w[4];
	bern(t, w);
	V3<Real> at = comb<Real>(p, w, 4);
	NEAR3(b.pointAt(t), at);
	NEAR(B::hp1(t), w[0]); NEAR(B::hp2(t), w[1]); NEAR(B::hp3(t), w[2]); NEAR(B::hp4(t), w[3]);
	dbern(t, w);
	V3<Real> dir = comb<Real>(p, w, 4);
	NEAR3(b.tangentAt(t), dir);
	NEAR(B::dhp1(t), w[0]); NEAR(B::dhp2(t), w[1]); NEAR(B::dhp3(t), w[2]); NEAR(B::dhp4(t), w[3]);
	// end tangents, and the same curve from them
	V3<Real> r1 = (V3<Real>(p[1]) - V3<Real>(p[0])) * N(3), r4 = (V3<Real>(p[3]) - V3<Real>(p[2])) * N(3);
	NEAR3(b.r1(), r1); NEAR3(b.r4(), r4);
	H h(b.p1(), b.p4(), b.r1(), b.r4());
	const LD u = Num<Real>::u();
	LD big = 0;
	for (auto& q : p) big = std::max(big, len(q.x, q.y, q.z));
	Vec3<Real> hp = h.pointAt(t), ht = h.tangentAt(t);
	V3<Real> hat = v3<Real>(at.x.v, at.y.v, at.z.v, 16 * u * big), hdir = v3<Real>(dir.x.v, dir.y.v, dir.z.v, 48 * u * big);
	NEAR3(hp, hat); NEAR3(ht, hdir);
	// the ends
	for (int e = 0; e < 2; e++)
	{
		bern(Real(e), w);
		NEAR3(b.pointAt(Real(e)), (comb<Real>(p, w, 4)));
		REQUIRE(w[e * 3].v == 1 && w[1].v == 0 && w[2].v == 0 && w[3 - 3 * e].v == 0);
	}
	// the curve run backwards
	B back(p[3], p[2], p[1], p[0]);
	N rw[4];
	Real rt = Real(1) - t;
	if (Real(1) - rt == t)
	{
		bern(rt, w); bern(t, rw);
		for (auto& x : w) x.e += 4 * u;
		Vec3<Real> q[4] = {p[3], p[2], p[1], p[0]};
		NEAR3(back.pointAt(rt), (comb<Real>(q, w, 4)));
		V3<Real> lib = V3<Real>(back.pointAt(rt));
		NEAR3(b.pointAt(t), (v3<Real>(lib.x.v, lib.y.v, lib.z.v, 8 * u * big)));
	}
}

LAW(frame, 0.7)
{
	typedef BezierSegment3<Real> B; typedef Num<Real> N;
	Vec3<Real> p[4];
	int k = anyPoints(c, p, 4);
	bool straight = c.draw(6) == 5;
	if (straight)
	{
		// exactly along a line
		Vec3<Real> d(grid<Real>(c, 3), grid<Real>(c, 3), grid<Real>(c, 3));
		for (auto& q : p) { Real m = grid<Real>(c, 6); q = Vec3<Real>(d.x * m, d.y * m, d.z * m); c.show("q", s(q)); }
		c.label("straight");
	}
	Real t = straight ? Real(c.draw(5)) / 4 : unit01<Real>(c);
	SHOW(t);
	B b(p[0], p[1], p[2], p[3]);
	N w[4];
	dbern(t, w);
	V3<Real> d = comb<Real>(p, w, 4);
	ddbern(t, w);
	V3<Real> dd = comb<Real>(p, w, 4);
	V3<Real> bn = cross(d, dd);
	Mat3<Real> m(Real(1));
	bool ok = b.frenetFrameAt(m, t);
	if (straight)
	{
		// no curvature, no frame
		c.nontrivial(d.x.v != 0 || d.y.v != 0 || d.z.v != 0);
		REQUIRE(!ok);
		REQUIRE(m.x.x == 1 && m.y.y == 1 && m.z.z == 1 && m.x.y == 0 && m.x.z == 0 && m.y.x == 0 && m.y.z == 0 && m.z.x == 0 && m.z.y == 0);
		return;
	}
	N ld = length(d), lb = length(bn);
	// well away from cusps and inflections
	if (!(ld.v > 256 * ld.e) || !(lb.v > 256 * (bn.x.e + bn.y.e + bn.z.e)) || ld.v < 1e-6L || lb.v < 1e-6L) { c.skipped(); return; }
	c.nontrivial(k >= 3);
	REQUIRE(ok);
	V3<Real> T(d.x / ld, d.y / ld, d.z / ld), Bn(bn.x / lb, bn.y / lb, bn.z / lb);
	NEAR3(m.x, Bn); NEAR3(m.y, T); NEAR3(m.z, (cross(Bn, T)));
}

LAW(split, 0.7)
{
	typedef BezierSegment3<Real> B; typedef Num<Real> N;
	const LD u = Num<Real>::u();
	Vec3<Real> p[4];
	int k = anyPoints(c, p, 4);
	Real a = unit01<Real>(c), t = unit01<Real>(c);
	SHOW(a); SHOW(t);
	c.nontrivial(k >= 3 && a > 0 && a < 1 && t > 0 && t < 1);
	LD big = 0;
	for (auto& q : p) big = std::max(big, len(q.x, q.y, q.z));
	B b(p[0], p[1], p[2], p[3]), x, y;
	b.split(a, x, y);
	SAME3(b.p1(), p[0]); SAME3(b.p2(), p[1]); SAME3(b.p3(), p[2]); SAME3(b.p4(), p[3]);
	// de Casteljau
	LD P[4][3];
	for (int i = 0; i < 4; i++) { P[i][0] = p[i].x; P[i][1] = p[i].y; P[i][2] = p[i].z; }
	LD L[4][3], Rr[4][3];
	for (int j = 0; j < 3; j++)
	{
		LD q[4] = {P[0][j], P[1][j], P[2][j], P[3][j]};
		for (int n = 0; n < 4; n++)
		{
			L[n][j] = q[0]; Rr[3 - n][j] = q[3 - n];
			for (int i = 0; i < 3 - n; i++) q[i] = q[i] * (1 - LD(a)) + q[i + 1] * LD(a);
		}
	}
	const Vec3<Real>* X[4] = {&x.p1(), &x.p2(), &x.p3(), &x.p4()};
	const Vec3<Real>* Y[4] = {&y.p1(), &y.p2(), &y.p3(), &y.p4()};
	for (int i = 0; i < 4; i++)
	{
		c.show("i", i);
		NEAR3(*X[i], (v3<Real>(L[i][0], L[i][1], L[i][2], u * big)));
		NEAR3(*Y[i], (v3<Real>(Rr[i][0], Rr[i][1], Rr[i][2], u * big)));
	}
	SAME3(x.p1(), p[0]); SAME3(y.p4(), p[3]);
	NEAR3(x.p4(), (v3<Real>(y.p1().x, y.p1().y, y.p1().z, u * big)));
	// both halves run along the curve
	{
		LD s1 = LD(a) * t, s2 = LD(a) + (1 - LD(a)) * t;
		for (int half = 0; half < 2; half++)
		{
			LD q = half ? s2 : s1, cq = 1 - q, W[4] = {cq * cq * cq, 3 * q * cq * cq, 3 * q * q * cq, q * q * q}, r[3];
			for (int j = 0; j < 3; j++) r[j] = W[0] * P[0][j] + W[1] * P[1][j] + W[2] * P[2][j] + W[3] * P[3][j];
			NEAR3((half ? y : x).pointAt(t), (v3<Real>(r[0], r[1], r[2], 2 * u * big)));
		}
	}
	// into itself
	B z = b, o;
	if (c.flip()) { z.split(a, z, o); SAME3(z.p1(), x.p1()); SAME3(z.p2(), x.p2()); SAME3(z.p3(), x.p3()); SAME3(z.p4(), x.p4()); SAME3(o.p1(), y.p1()); SAME3(o.p2(), y.p2()); SAME3(o.p3(), y.p3()); SAME3(o.p4(), y.p4()); }
	else { z.split(a, o, z); SAME3(o.p1(), x.p1()); SAME3(o.p2(), x.p2()); SAME3(o.p3(), x.p3()); SAME3(o.p4(), x.p4()); SAME3(z.p1(), y.p1()); SAME3(z.p2(), y.p2()); SAME3(z.p3(), y.p3()); SAME3(z.p4(), y.p4()); }
}

template <class R> static void exactAt(const Vec3<R>* p, LD q, LD* r, bool tangent)
{
	LD cq = 1 - q;
	LD W[4] = {cq * cq * cq, 3 * q * cq * cq, 3 * q * q * cq, q * q * q};
	LD D[4] = {-3 * cq * cq, 3 * cq * cq - 6 * q * cq, 6 * q * cq - 3 * q * q, 3 * q * q};
	const LD* w = tangent ? D : W;
	r[0] = r[1] = r[2] = 0;
	for (int i = 0; i < 4; i++) { r[0] += w[i] * p[i].x; r[1] += w[i] * p[i].y; r[2] += w[i] * p[i].z; }
}
template <class R> static V3<R> operator+=(V3<R>& a, V3<R> b) { return a = a + b; }

// small whole control points and parameters in eighths: every way to evaluate the polynomials is free of rounding; the basis functions and the stepping beyond the ends too
LAW(exact, 0.7)
{
	typedef BezierSegment3<Real> B; typedef HermiteSplineSegment3<Real> H;
	Vec3<Real> p[4];
	for (auto& q : p) { q = Vec3<Real>(grid<Real>(c, 16), grid<Real>(c, 16), grid<Real>(c, 16)); c.show("p", s(q)); }
	int k = int(c.draw(9));
	Real t = Real(k) / 8, z = c.flip() ? Real(c.range(-16, 24)) / 8 : t;
	SHOW(t); SHOW(z);
	c.nontrivial(k != 0 && k != 8);
	if (z < 0 || z > 1) c.label("beyond the ends");
	auto is = [&](const Vec3<Real>& got, const LD* r, const char* what)
	{
		REQUIREM(got.x == r[0] && got.y == r[1] && got.z == r[2], std::string(what) + " is " + gen::s(got) + ", not " + gen::s(Vec3<Real>(Real(r[0]), Real(r[1]), Real(r[2]))));
	};
	LD q = t, qz = z, cq = 1 - qz;
	LD r[3];
	B b(p[0], p[1], p[2], p[3]);
	exactAt(p, q, r, false); is(b.pointAt(t), r, "the Bezier point");
	exactAt(p, q, r, true); is(b.tangentAt(t), r, "the Bezier tangent");
	{
		LD W[4] = {cq * cq * cq, 3 * qz * cq * cq, 3 * qz * qz * cq, qz * qz * qz}, D[4] = {-3 * cq * cq, 3 * cq * cq - 6 * qz * cq, 6 * qz * cq - 3 * qz * qz, 3 * qz * qz};
		REQUIRE(B::hp1(z) == W[0] && B::hp2(z) == W[1] && B::hp3(z) == W[2] && B::hp4(z) == W[3]);
		REQUIRE(B::dhp1(z) == D[0] && B::dhp2(z) == D[1] && B::dhp3(z) == D[2] && B::dhp4(z) == D[3]);
	}
	H h(p[0], p[1], p[2], p[3]);
	auto weights = [](LD q, LD* W, LD* D)
	{
		W[0] = 2 * q * q * q - 3 * q * q + 1; W[1] = -2 * q * q * q + 3 * q * q; W[2] = q * q * q - 2 * q * q + q; W[3] = q * q * q - q * q;
		D[0] = 6 * q * q - 6 * q; D[1] = -6 * q * q + 6 * q; D[2] = 3 * q * q - 4 * q + 1; D[3] = 3 * q * q - 2 * q;
	};
	{
		LD W[4], D[4];
		weights(qz, W, D);
		REQUIRE(H::hp1(z) == W[0] && H::hp4(z) == W[1] && H::hr1(z) == W[2] && H::hr4(z) == W[3]);
		REQUIRE(H::dhp1(z) == D[0] && H::dhp4(z) == D[1] && H::dhr1(z) == D[2] && H::dhr4(z) == D[3]);
		weights(q, W, D);
		for (int n = 0; n < 2; n++)
		{
			const LD* w = n ? D : W;
			r[0] = r[1] = r[2] = 0;
			for (int i = 0; i < 4; i++) { r[0] += w[i] * p[i].x; r[1] += w[i] * p[i].y; r[2] += w[i] * p[i].z; }
			if (n) is(h.tangentAt(t), r, "the Hermite tangent"); else is(h.pointAt(t), r, "the Hermite point");
		}
	}
	// the two parts
	B x, y;
	b.split(t, x, y);
	Real f = Real(c.draw(5)) / 4;
	exactAt(p, q * LD(f), r, false); is(x.pointAt(f), r, "a point of the first part");
	exactAt(p, q + (1 - q) * LD(f), r, false); is(y.pointAt(f), r, "a point of the second part");
	// stepping
	Real d = c.flip() ? Real(0.25) : Real(0.125);
	BezierSegment3FwdDiff<Real> w(p[0], p[1], p[2], p[3], d);
	for (int i = 0; i < 12; i++)
	{
		exactAt(p, LD(d) * i, r, false); is(w.currentPoint(), r, "a stepped point");
		exactAt(p, LD(d) * i, r, true); is(w.currentTangent(), r, "a stepped tangent");
		w.stepForward();
	}
}

LAW(stepping, 0.4)
{
	typedef Num<Real> N;
	Vec3<Real> p[4];
	int k = anyPoints(c, p, 4);
	int steps = 1 + int(c.draw(c.flip() ? 60 : 12));
	Real d = c.draw(4) == 3 ? between<Real>(c, Real(0), Real(1)) / steps : Real(1) / steps;
	SHOW(steps); SHOW(d);
	c.nontrivial(k >= 3 && steps > 3);
	BezierSegment3FwdDiff<Real> f(p[0], p[1], p[2], p[3], d);
	// the errors of the same recurrences; the values come from the curve itself
	N h(d), h2 = h * h, h3 = h2 * h;
	V3<Real> a = V3<Real>(p[3]) - V3<Real>(p[0]), b = V3<Real>(p[2]) - V3<Real>(p[1]), e = V3<Real>(p[1]) - V3<Real>(p[0]);
	V3<Real> P(p[0]), dP = a * h3 + b * ((h2 - h3) * N(3)) + e * ((h - h2) * N(3));
	V3<Real> d2P = a * (h3 * N(6)) + b * ((h2 - h3 * N(3)) * N(6)) + e * (-(h2 * N(6))), d3P = a * (h3 * N(6)) + b * (-(h3 * N(18)));
	V3<Real> T = e * N(3), dT = a * (h2 * N(3)) + b * (h * N(6) - h2 * N(9)) + e * (-(h * N(6))), d2T = a * (h2 * N(6)) + b * (-(h2 * N(18)));
	const LD u = Num<Real>::u();
	LD big = 0;
	for (auto& q : p) big = std::max(big, len(q.x, q.y, q.z));
	for (int i = 0; i <= steps; i++)
	{
		LD r[3];
		exactAt(p, LD(d) * i, r, false);
		NEAR3(f.currentPoint(), (V3<Real>(N(r[0], P.x.e + u * big), N(r[1], P.y.e + u * big), N(r[2], P.z.e + u * big))));
		exactAt(p, LD(d) * i, r, true);
		NEAR3(f.currentTangent(), (V3<Real>(N(r[0], T.x.e + 4 * u * big), N(r[1], T.y.e + 4 * u * big), N(r[2], T.z.e + 4 * u * big))));
		f.stepForward();
		P += dP; dP += d2P; d2P += d3P; T += dT; dT += d2T;
	}
}

LAW(lengths, 0.4)
{
	typedef BezierSegment3<Real> B;
	const LD u = Num<Real>::u();
	Vec3<Real> p[4];
	int k = anyPoints(c, p, 4);
	int steps = 1 + int(c.draw(c.flip() ? 60 : 12));
	SHOW(steps);
	c.nontrivial(k >= 3 && steps > 1);
	B b(p[0], p[1], p[2], p[3]);
	LD want = 0, fine = 0, big = 0, r[3], last[3] = {LD(p[0].x), LD(p[0].y), LD(p[0].z)}, lf[3] = {last[0], last[1], last[2]}, hull = 0;
	for (auto& q : p) big = std::max(big, len(q.x, q.y, q.z));
	for (int i = 1; i <= steps; i++)
	{
		exactAt(p, LD(i) / steps, r, false);
		want += len(r[0] - last[0], r[1] - last[1], r[2] - last[2]);
		for (int j = 0; j < 3; j++) last[j] = r[j];
	}
	for (int i = 1; i <= 4 * steps; i++)
	{
		exactAt(p, LD(i) / (4 * steps), r, false);
		fine += len(r[0] - lf[0], r[1] - lf[1], r[2] - lf[2]);
		for (int j = 0; j < 3; j++) lf[j] = r[j];
	}
	for (int i = 0; i < 3; i++) hull += len(LD(p[i + 1].x) - p[i].x, LD(p[i + 1].y) - p[i].y, LD(p[i + 1].z) - p[i].z);
	// forward differences lose up to a power of the step count
	LD tol = 8 * u * big * (8 + LD(steps) * steps / 4);
	Real got = b.length(steps);
	SHOW(want); SHOW(got);
	CLOSE(got, want, tol);
	// between the chord and the control polygon, growing as the steps are divided
	Real more = b.length(4 * steps);
	CLOSE(more, fine, 8 * u * big * (8 + 4 * LD(steps) * steps));
	REQUIRE(got <= hull + tol);
	REQUIRE(got >= len(LD(p[3].x) - p[0].x, LD(p[3].y) - p[0].y, LD(p[3].z) - p[0].z) - tol);
	SAME(b.length(), b.length(10));
}

// at any size the curves are the same
LAW(scaled, 0.4)
{
	typedef BezierSegment3<Real> B; typedef HermiteSplineSegment3<Real> H;
	Vec3<Real> p[4], q[4];
	int n = anyPoints(c, p, 4);
	Real k = pow2<Real>(c), t = unit01<Real>(c);
	SHOW(k); SHOW(t);
	c.nontrivial(n >= 3 && k != 1 && t > 0 && t < 1);
	for (int i = 0; i < 4; i++) q[i] = p[i] * k;
	LD big = 0, u = Num<Real>::u();
	for (auto& x : p) big = std::max(big, len(x.x, x.y, x.z));
	auto like = [&](const Vec3<Real>& x, const Vec3<Real>& y, LD z) { CLOSE(Real(x.x / k), y.x, 64 * u * z); CLOSE(Real(x.y / k), y.y, 64 * u * z); CLOSE(Real(x.z / k), y.z, 64 * u * z); };
	B b(p[0], p[1], p[2], p[3]), kb(q[0], q[1], q[2], q[3]), x, y, kx, ky;
	H h(p[0], p[1], p[2], p[3]), kh(q[0], q[1], q[2], q[3]);
	like(kb.pointAt(t), b.pointAt(t), big); like(kb.tangentAt(t), b.tangentAt(t), 4 * big);
	like(kh.pointAt(t), h.pointAt(t), big); like(kh.tangentAt(t), h.tangentAt(t), 4 * big);
	CLOSE(Real(kb.length() / k), b.length(), 256 * u * big);
	b.split(t, x, y); kb.split(t, kx, ky);
	like(kx.p3(), x.p3(), big); like(ky.p2(), y.p2(), big);
	// stepping
	{
		int steps = 1 + int(c.draw(12));
		BezierSegment3FwdDiff<Real> w(p[0], p[1], p[2], p[3], Real(1) / steps), kw(q[0], q[1], q[2], q[3], Real(1) / steps);
		for (int i = 0; i <= steps; i++)
		{
			like(kw.currentPoint(), w.currentPoint(), (i + 1) * big);
			like(kw.currentTangent(), w.currentTangent(), 4 * (i + 1) * big);
			w.stepForward(); kw.stepForward();
		}
	}
	// a frame where there is a clear one
	Vec3<Real> d = b.tangentAt(t);
	Mat3<Real> m(Real(1)), km(Real(1));
	bool ok = b.frenetFrameAt(m, t), kok = kb.frenetFrameAt(km, t);
	if (len(d.x, d.y, d.z) > 1e-2L * big)
	{
		REQUIRE(ok == kok);
		if (ok) { Real one = 1; (void)one; CLOSE(km.y.x, m.y.x, 1e4L * u); CLOSE(km.y.y, m.y.y, 1e4L * u); CLOSE(km.y.z, m.y.z, 1e4L * u); }
	}
}
