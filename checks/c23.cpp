// C23: view frusta
#include "mats.h"
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C23";
const char* pbt::RULE = "perspective frusta (symmetric and off-centre, narrow and wide, near and far), orthographic boxes, pyramids and wedges and their images under rotations, stretches, shears and translations, corners given or transformed by a 3x4 or 4x4 matrix; points inside, beside each side and edge, on corners and anywhere, spheres about the touching radius of each side; "
	"non-trivial: the frustum is off-centre or transformed, or the point is decided by a single side";

struct P3 { LD v[3]; };
static P3 operator-(P3 a, P3 b) { return P3{{a.v[0] - b.v[0], a.v[1] - b.v[1], a.v[2] - b.v[2]}}; }
static LD dot(P3 a, P3 b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
static P3 cross(P3 a, P3 b) { return P3{{a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0]}}; }
static LD norm(P3 a) { return sqrtl(dot(a, a)); }
template <class R> static P3 p3(const Vec3<R>& a) { return P3{{LD(a.x), LD(a.y), LD(a.z)}}; }
template <class R> static Vec3<R> toVec(P3 a) { return Vec3<R>(R(a.v[0]), R(a.v[1]), R(a.v[2])); }

// the corners of each side, in the order of `planes`: far, near, left, top, right, bottom
static const int SIDE[6][4] = {{4, 5, 6, 7}, {0, 1, 2, 3}, {2, 3, 7, 6}, {3, 0, 4, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}};

// Signed distance of p to each side (positive outside), from the stored corners: the range over
// every choice of three of its corners, widened by the rounding of a plane built from them.
struct Dist { LD lo, hi; };
template <class R> static bool sideDistance(const Vec3<R>* corners, int side, P3 p, Dist& d)
{
	const LD u = Num<R>::u();
	P3 mid{{0, 0, 0}};
	for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) mid.v[k] += p3(corners[i]).v[k] / 8;
	d.lo = 1e30L; d.hi = -1e30L;
	// the near side may be built on the far side's orientation
	for (int from = 0; from < (side == 1 ? 2 : 1); from++)
		for (int skip = 0; skip < 4; skip++)
		{
			int k[3], n = 0;
			for (int i = 0; i < 4; i++) if (i != skip) k[n++] = SIDE[from ? 0 : side][i];
			P3 a = p3(corners[k[0]]), e1 = p3(corners[k[1]]) - a, e2 = p3(corners[k[2]]) - a, e3 = e2 - e1;
			P3 m = cross(e1, e2);
			LD l = norm(m);
			// where corners coincide the others make the plane
			if (norm(e1) == 0 || norm(e2) == 0 || norm(e3) == 0) continue;
			LD longest = std::max(norm(e1), std::max(norm(e2), norm(e3)));
			// the shape of the triangle decides how well its plane is known
			if (!(l > 1e-3L * longest * longest)) return false;
			LD cond = longest * longest / l;
			for (int anchor = 0; anchor < (from ? 4 : 1); anchor++)
			{
				if (from) a = p3(corners[SIDE[1][anchor]]);
				LD sg = dot(m, mid - a) > 0 ? -1 : 1;
				LD dist = sg * dot(m, p - a) / l;
				LD tol = 16 * u * (norm(p) + norm(a) + cond * norm(p - a));
				d.lo = std::min(d.lo, dist - tol); d.hi = std::max(d.hi, dist + tol);
			}
		}
	return d.lo <= d.hi;
}

template <class R> struct Shape
{
	Vec3<R> local[8];
	LD l, r, b, t, fl, fr, fb, ft, n, f;      // near and far rectangles and depths
	bool centred;
	// the point at x, y in [-1, 1] of the section at depth s in [0, 1]
	P3 at(LD x, LD y, LD s) const
	{
		LD L = l + (fl - l) * s, Rr = r + (fr - r) * s, B = b + (fb - b) * s, T = t + (ft - t) * s;
		return P3{{(L + Rr) / 2 + (Rr - L) / 2 * x, (B + T) / 2 + (T - B) / 2 * y, -(n + (f - n) * s)}};
	}
};
template <class R> static Shape<R> anyShape(Case& c)
{
	Shape<R> k;
	LD w = LD(positive<R>(c, -3, 2)), h = c.flip() ? w : LD(positive<R>(c, -3, 2)), x = 0, y = 0;
	k.centred = c.flip();
	if (!k.centred) { x = w * between<R>(c, R(-1.5), R(1.5)); y = h * between<R>(c, R(-1.5), R(1.5)); }
	k.n = LD(positive<R>(c, -3, 2));
	k.f = k.n * (1 + LD(positive<R>(c, -1, 4)));
	LD g = c.draw(4) == 0 ? 1 : k.f / k.n;
	k.l = x - w; k.r = x + w; k.b = y - h; k.t = y + h;
	k.fl = k.l * g; k.fr = k.r * g; k.fb = k.b * g; k.ft = k.t * g;
	if (g == 1) c.label("parallel sides");
	// the near side may be an edge or a single point
	int tip = int(c.draw(12));
	if (tip == 11 || tip == 10) { k.l = k.r = x; c.label("near side without width"); }
	if (tip == 11 || tip == 9) { k.b = k.t = y; c.label("near side without height"); }
	for (int i = 0; i < 8; i++)
	{
		bool right = (i & 3) < 2, top = (i & 3) == 0 || (i & 3) == 3;
		k.local[i] = toVec<R>(k.at(right ? 1 : -1, top ? 1 : -1, i < 4 ? 0 : 1));
	}
	return k;
}
template <class R> static Mat34<R> pose(Case& c, bool& moved)
{
	moved = c.draw(4) != 0;
	if (!moved) return Mat34<R>(R(1));
	Quat<R> q = unitQuat<R>(c);
	NMat<3, R> m = nrot(q);
	if (c.draw(3) == 0)
	{
		// stretched along the axes, and sheared
		LD k[3], sh = c.flip() ? LD(between<R>(c, R(-1), R(1))) : 0;
		for (auto& v : k) v = LD(positive<R>(c, -2, 2));
		for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) m.e[j][i] = Num<R>(m.e[j][i].v * k[j], 0);
		for (int i = 0; i < 3; i++) m.e[1][i] = Num<R>(m.e[1][i].v + sh * m.e[0][i].v, 0);
		c.label("stretched");
	}
	Vec3<R> col[3];
	for (int j = 0; j < 3; j++) col[j] = Vec3<R>(R(m.e[j][0].v), R(m.e[j][1].v), R(m.e[j][2].v));
	return Mat34<R>(col[0], col[1], col[2], vec3<R>(c, -4, 4));
}
template <class R> static P3 apply(const Mat34<R>& m, P3 p)
{
	P3 r = p3(m.t);
	P3 x = p3(m.rs.x), y = p3(m.rs.y), z = p3(m.rs.z);
	for (int i = 0; i < 3; i++) r.v[i] += x.v[i] * p.v[0] + y.v[i] * p.v[1] + z.v[i] * p.v[2];
	return r;
}
template <class R> static Frustum<R> build(Case& c, const Shape<R>& k, const Mat34<R>& m, bool moved)
{
	Frustum<R> f;
	switch (moved ? 1 + c.draw(2) : c.draw(4))
	{
	case 0: f.set(k.local); break;
	case 1: f.set(m, k.local); break;
	case 2: { Mat4<R> a; a = Mat4<R>(m.rs, m.t); f.set(a, k.local); break; }
	default: f = Frustum<R>(k.local);
	}
	return f;
}

LAW(sides, 0.6)
{
	const LD u = Num<Real>::u();
	Shape<Real> k = anyShape<Real>(c);
	bool moved;
	Mat34<Real> m = pose<Real>(c, moved);
	Frustum<Real> f = build(c, k, m, moved);
	c.nontrivial(moved || !k.centred);
	LD size = 0;
	for (int i = 0; i < 8; i++)
	{
		c.show("corner", s(f.corners[i]));
		P3 want = apply(m, p3(k.local[i]));
		LD mag = norm(p3(m.t));
		P3 l = p3(k.local[i]);
		const Vec3<Real>* col[3] = {&m.rs.x, &m.rs.y, &m.rs.z};
		for (int j = 0; j < 3; j++) mag += fabsl(l.v[j]) * norm(p3(*col[j]));
		CLOSE(f.corners[i].x, want.v[0], 8 * u * mag); CLOSE(f.corners[i].y, want.v[1], 8 * u * mag); CLOSE(f.corners[i].z, want.v[2], 8 * u * mag);
		size = std::max(size, mag);
	}
	P3 mid = apply(m, k.at(0, 0, 0.5L));
	for (int i = 0; i < 6; i++)
	{
		P3 n = p3(f.planes[i].normal);
		c.show("plane", s(f.planes[i].normal) + " " + pbt::str(f.planes[i].d));
		Dist d;
		if (!sideDistance(f.corners, i, mid, d)) { c.skipped(); continue; }
		CLOSE(norm(n), 1, 16 * u);
		// outwards: the middle is inside, as far as the corners say
		LD h = dot(n, mid) - f.planes[i].d;
		c.nCompared++;
		if (!(h >= d.lo && h <= d.hi)) pbt::failWith("plane " + std::to_string(i) + " is " + pbt::str(h) + " from the middle, not " + pbt::str(d.lo) + " .. " + pbt::str(d.hi));
		for (int j = 0; j < 4; j++)
		{
			P3 q = p3(f.corners[SIDE[i][j]]);
			if (!sideDistance(f.corners, i, q, d)) continue;
			LD e = dot(n, q) - f.planes[i].d;
			c.nCompared++;
			if (!(e >= d.lo && e <= d.hi)) pbt::failWith("corner " + std::to_string(SIDE[i][j]) + " is " + pbt::str(e) + " from plane " + std::to_string(i));
		}
	}
	// casting keeps everything
	auto ff = f.template cast<float>();
	auto fd = f.template cast<double>();
	for (int i = 0; i < 8; i++) { SAME3(ff.corners[i], f.corners[i].template cast<float>()); SAME3(fd.corners[i], f.corners[i].template cast<double>()); }
	for (int i = 0; i < 6; i++)
	{
		SAME3(ff.planes[i].normal, f.planes[i].normal.template cast<float>()); SAME3(fd.planes[i].normal, f.planes[i].normal.template cast<double>());
		SAME(ff.planes[i].d, float(f.planes[i].d)); SAME(fd.planes[i].d, double(f.planes[i].d));
	}
}

LAW(queries, 1)
{
	Shape<Real> k = anyShape<Real>(c);
	bool moved;
	Mat34<Real> m = pose<Real>(c, moved);
	Frustum<Real> f = build(c, k, m, moved);
	for (int i = 0; i < 8; i++) c.show("corner", s(f.corners[i]));
	Vec3<Real> p;
	int aim = int(c.draw(4));
	if (aim == 0) p = vec3<Real>(c);
	else
	{
		LD x = between<Real>(c, Real(-1), Real(1)), y = between<Real>(c, Real(-1), Real(1)), s = unit01<Real>(c);
		if (aim == 1)
		{
			// against one side, from within or without
			LD e = LD(mag<Real>(c, -14, 0)) * (c.flip() ? -1 : 1);
			switch (c.draw(6))
			{
			case 0: x = 1 + e; break;
			case 1: x = -1 - e; break;
			case 2: y = 1 + e; break;
			case 3: y = -1 - e; break;
			case 4: s = 1 + e; break;
			default: s = -e;
			}
		}
		else if (aim == 2) { x *= 1.6L; y *= 1.6L; s = s * 1.6L - 0.3L; }
		p = toVec<Real>(apply(m, k.at(x, y, s)));
	}
	SHOWV(p);
	Dist d[6];
	int outside = 0, unknown = 0;
	for (int i = 0; i < 6; i++)
	{
		if (!sideDistance(f.corners, i, p3(p), d[i])) { c.skipped(); return; }
		if (d[i].lo > 0) outside++; else if (d[i].hi > 0) unknown++;
	}
	c.nontrivial(outside + unknown == 1 || moved || !k.centred);
	if (outside == 1) c.label("outside one side");
	if (!outside && !unknown) c.label("inside");
	if (outside || !unknown)
	{
		REQUIRE(f.contains(p) == (outside == 0));
		REQUIRE(f.contains(Vec4<Real>(p)) == (outside == 0));
		REQUIRE(f.contains(Sphere<Real>(p, Real(0))) == (outside == 0));
		REQUIRE(f.intersects(Sphere<Real>(p, Real(0))) == (outside == 0));
	}
	else c.skipped();

	// spheres
	Real r;
	int side = int(c.draw(6));
	if (c.flip()) r = Real(fabsl(d[side].lo + d[side].hi) / 2 * (1 + LD(mag<Real>(c, -14, 0)) * (c.flip() ? 1 : -1) * 0.9L));
	else r = positive<Real>(c, -4, 3);
	SHOW(r);
	Sphere<Real> ball(p, r);
	const LD ru = 4 * Num<Real>::u() * r;
	int in = 0, maybeIn = 0, out = 0, maybeOut = 0;
	for (int i = 0; i < 6; i++)
	{
		if (d[i].hi <= -r - ru) in++; else if (d[i].lo <= -r + ru) maybeIn++;
		if (d[i].lo > r + ru) out++; else if (d[i].hi > r - ru) maybeOut++;
	}
	if (in == 6) { c.label("sphere inside"); REQUIRE(f.contains(ball)); }
	else if (in + maybeIn < 6) REQUIRE(!f.contains(ball));
	else c.skipped();
	if (out) { c.label("sphere outside"); REQUIRE(!f.intersects(ball)); }
	else if (!maybeOut) { if (outside) c.label("sphere across"); REQUIRE(f.intersects(ball)); }
	else c.skipped();
}

// boxes with corners on a power-of-two grid: every plane is exact, so its sides belong to it
LAW(exact, 0.4)
{
	Vec3<Real> lo, size;
	for (Real* q : {&lo.x, &lo.y, &lo.z}) *q = grid<Real>(c, 8);
	for (Real* q : {&size.x, &size.y, &size.z}) *q = Real(1 << c.draw(4));
	Vec3<Real> corners[8];
	for (int i = 0; i < 8; i++)
	{
		bool right = (i & 3) < 2, top = (i & 3) == 0 || (i & 3) == 3;
		corners[i] = Vec3<Real>(lo.x + (right ? size.x : 0), lo.y + (top ? size.y : 0), lo.z + (i < 4 ? size.z : 0));
	}
	SHOWV(lo); SHOWV(size);
	Frustum<Real> f(corners);
	Vec3<Real> p;
	p.x = lo.x + grid<Real>(c, 40) / 4; p.y = lo.y + grid<Real>(c, 40) / 4; p.z = lo.z + grid<Real>(c, 40) / 4;
	if (c.flip()) p = corners[c.draw(8)];
	if (c.flip()) { int k = int(c.draw(3)); (k == 0 ? p.x : k == 1 ? p.y : p.z) += grid<Real>(c, 2) / 4; }
	SHOWV(p);
	Real gap[6] = {lo.x - p.x, p.x - lo.x - size.x, lo.y - p.y, p.y - lo.y - size.y, lo.z - p.z, p.z - lo.z - size.z};
	Real worst = *std::max_element(gap, gap + 6);
	c.nontrivial(fabs(double(worst)) <= 0.5);
	if (worst == 0) c.label("on the boundary");
	REQUIRE(f.contains(p) == (worst <= 0));
	REQUIRE(f.contains(Vec4<Real>(p)) == (worst <= 0));
	Real r = Real(c.draw(30)) / 4;
	SHOW(r);
	REQUIRE(f.contains(Sphere<Real>(p, r)) == (worst <= -r));
	REQUIRE(f.intersects(Sphere<Real>(p, r)) == (worst <= r));
}

// at any size the answers are the same
LAW(scaled, 0.4)
{
	Shape<Real> k = anyShape<Real>(c);
	bool moved;
	Mat34<Real> m = pose<Real>(c, moved);
	Frustum<Real> f = build(c, k, m, moved), g;
	Real q = pow2<Real>(c);
	Vec3<Real> far[8];
	for (int i = 0; i < 8; i++) far[i] = f.corners[i] * q;
	g.set(far);
	f.set(f.corners);
	Vec3<Real> p = c.flip() ? f.corners[c.draw(8)] : toVec<Real>(apply(m, k.at(between<Real>(c, Real(-1.5), Real(1.5)), between<Real>(c, Real(-1.5), Real(1.5)), between<Real>(c, Real(-0.2), Real(1.2)))));
	Real r = positive<Real>(c, -6, 3);
	SHOW(q); SHOWV(p); SHOW(r);
	Vec3<Real> kp = p * q;
	c.nontrivial(q != 1 && f.intersects(Sphere<Real>(p, r)));
	REQUIRE(g.contains(kp) == f.contains(p));
	REQUIRE(g.contains(Vec4<Real>(kp)) == f.contains(p));
	REQUIRE(g.contains(Sphere<Real>(kp, r * q)) == f.contains(Sphere<Real>(p, r)));
	REQUIRE(g.intersects(Sphere<Real>(kp, r * q)) == f.intersects(Sphere<Real>(p, r)));
}
