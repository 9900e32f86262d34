// C34: random helpers. The check supplies the random source itself (it defines rand()), so that every
// sequence of draws can occur, the extreme ones included.
#include "gen.h"
#include <set>
using namespace mathlib;
using namespace gen;
using pbt::Case;

const char* pbt::PROPERTY = "C34";
const char* pbt::RULE = "scripted and pseudo-random states of the random source (its extreme values 0 and RAND_MAX, constant prefixes, tiny values), ranges from one value to the whole of int, both signs, any scale for reals; "
	"non-trivial: the range holds more than one value";

static std::vector<int> script;
static size_t scriptPos;
static uint64_t state;
static int calls;
static int nextRandom()
{
	calls++;
	if (calls > 100000) abort();      // does not return
	if (scriptPos < script.size()) return script[scriptPos++];
	uint64_t z = (state += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return int((z ^ (z >> 31)) % (uint64_t(RAND_MAX) + 1));
}
extern "C" int rand() noexcept { return nextRandom(); }

static void rewind(uint64_t seed) { scriptPos = 0; state = seed; calls = 0; }
static uint64_t source(Case& c)
{
	script.clear();
	int n = c.range(0, 6);
	for (int i = 0; i < n; i++)
	{
		int v;
		switch (c.draw(5))
		{
		case 0: v = 0; break;
		case 1: v = RAND_MAX; break;
		case 2: v = int(c.draw(4)); break;
		case 3: v = RAND_MAX / 2 + c.range(-2, 2); break;
		default: v = int(c.draw(uint64_t(RAND_MAX) + 1));
		}
		script.push_back(v);
		c.show("source", v);
	}
	uint64_t seed = c.draw(1ull << 32);
	c.show("then pseudo-random from", seed);
	rewind(seed);
	return seed;
}
static int size(Case& c, int hi)
{
	switch (c.draw(4)) { case 0: return 1; case 1: return 1 + int(c.draw(10)); case 2: return hi - int(c.draw(3)); default: return 1 + int(c.draw(uint64_t(hi))); }
}

LAW1(integers, 1)
{
	uint64_t seed = source(c);
	int n = size(c, INT32_MAX), a = size(c, INT32_MAX / 2);
	int from, to;
	switch (c.draw(3))
	{
	case 0: from = c.range(-10, 10); to = from + 1 + c.range(0, 10); break;
	case 1: from = c.range(-1000000, 1000000); to = from + size(c, 1000000); break;
	default: from = -(1 << 30) + int(c.draw(1u << 30)); to = from + size(c, 1 << 30); break;
	}
	int bf = int(c.draw(c.flip() ? 20 : 1 << 29)), bt = bf + size(c, 1 << 29);
	SHOW(n); SHOW(a); SHOW(from); SHOW(to); SHOW(bf); SHOW(bt);
	c.nontrivial(n > 1 && to - from > 1);
	std::vector<int> first;
	for (int pass = 0; pass < 2; pass++)
	{
		rewind(seed);
		std::vector<int> got;
		for (int i = 0; i < 4; i++)
		{
			int v = mathlib::rand(n);
			REQUIREM(v >= 0 && v < n, v);
			got.push_back(v);
			v = mathlib::randBetween(from, to);
			REQUIREM(v >= from && v < to, v);
			got.push_back(v);
			v = mathlib::randAmplitude(a);
			REQUIREM(v >= -a && v < a, v);
			got.push_back(v);
			v = mathlib::randAmplitude(bf, bt);
			REQUIREM((v >= bf && v < bt) || (v >= -bt && v < -bf), v);
			got.push_back(v);
		}
		if (pass) REQUIRE(got == first);
		first = got;
	}
}

LAW(reals, 1)
{
	LD u = Num<Real>::u();
	uint64_t seed = source(c);
	Real f = positive<Real>(c, -20, 20), a = real<Real>(c), b = real<Real>(c), p = positive<Real>(c), q;
	if (c.draw(6) == 0) b = a;
	if (b < a) std::swap(a, b);
	if (c.draw(4) == 0) p = Real(0);
	q = p + positive<Real>(c);
	SHOW(f); SHOW(a); SHOW(b); SHOW(p); SHOW(q);
	c.nontrivial(a < b);
	std::vector<Real> first;
	for (int pass = 0; pass < 2; pass++)
	{
		rewind(seed);
		std::vector<Real> got;
		for (int i = 0; i < 4; i++)
		{
			Real v = mathlib::rand(f);
			REQUIREM(v >= Real(0) && v <= f * (1 + 2 * u), v);
			got.push_back(v);
			v = mathlib::randBetween(a, b);
			LD tol = 4 * u * (fabsl(a) + fabsl(b));
			REQUIREM(v >= a - tol && v <= b + tol, v);
			if (a == b) REQUIRE(v == a);
			got.push_back(v);
			v = mathlib::randAmplitude(f);
			REQUIREM(v >= -f * (1 + 2 * u) && v <= f * (1 + 2 * u), v);
			got.push_back(v);
			v = mathlib::randAmplitude(p, q);
			tol = 4 * u * q;
			REQUIREM(std::fabs(v) >= p - tol && std::fabs(v) <= q + tol, v);
			got.push_back(v);
		}
		if (pass) REQUIRE(got == first);
		first = got;
	}
}

LAW(unitVectors, 1)
{
	LD u = Num<Real>::u();
	uint64_t seed = source(c);
	c.nontrivial();
	Vec3<Real> v[4];
	Vec2<Real> w[4];
	for (int pass = 0; pass < 2; pass++)
	{
		rewind(seed);
		for (int i = 0; i < 4; i++)
		{
			Vec3<Real> r = Vec3<Real>::randomUnitVector();
			Vec2<Real> s = Vec2<Real>::randomUnitVector();
			SHOWV(r); SHOWV(s);
			CLOSE(Real(len(r.x, r.y, r.z)), 1, 4 * u);
			CLOSE(Real(len(s.x, s.y)), 1, 4 * u);
			if (pass) { SAME3(r, v[i]); SAME2(s, w[i]); }
			v[i] = r; w[i] = s;
		}
	}
}

LAW(colours, 1)
{
	LD u = Num<Real>::u();
	uint64_t seed = source(c);
	Real a = real<Real>(c);
	SHOW(a);
	c.nontrivial();
	std::vector<Real> first;
	for (int pass = 0; pass < 2; pass++)
	{
		rewind(seed);
		ColorRGB<Real> p = ColorRGB<Real>::random();
		ColorRGBA<Real> q = ColorRGBA<Real>::random(), r = ColorRGBA<Real>::random(a);
		ColorHSV<Real> h = ColorHSV<Real>::random();
		std::vector<Real> got = {p.r, p.g, p.b, q.r, q.g, q.b, r.r, r.g, r.b, h.s, h.v};
		for (Real x : got) REQUIREM(x >= Real(0) && x <= Real(1 + 2 * u), x);
		REQUIREM(h.h >= Real(0) && h.h <= Real(360 * (1 + 2 * u)), h.h);
		REQUIRE(q.a == Real(1) && r.a == a);
		got.push_back(h.h);
		if (pass) REQUIRE(got == first);
		first = got;
	}
}

// a well-distributed source reaches every part of the range: 400 draws miss a given eighth of it
// with probability (7/8)^400, 6e-24
static const int DRAWS = 400;
struct Halves { int lo = 0, hi = 0; void add(LD v, LD mid) { if (v < mid) lo++; else hi++; } bool both() const { return lo > 0 && hi > 0; } };

LAW1(spreadIntegers, 0.02)
{
	script.clear();
	uint64_t seed = c.draw(1ull << 48);
	int n = 1 + int(c.draw(8)), from = c.range(-10, 10), m = 1 + int(c.draw(4)), bf = c.range(0, 5);
	SHOW(seed); SHOW(n); SHOW(from); SHOW(m); SHOW(bf);
	c.nontrivial(n > 1);
	rewind(seed);
	std::set<int> a, b, d, e;
	for (int i = 0; i < DRAWS; i++) { a.insert(mathlib::rand(n)); b.insert(mathlib::randBetween(from, from + n)); d.insert(mathlib::randAmplitude(m)); e.insert(mathlib::randAmplitude(bf, bf + m)); }
	REQUIREM(int(a.size()) == n, a.size());
	REQUIREM(int(b.size()) == n, b.size());
	REQUIREM(int(d.size()) == 2 * m, d.size());
	REQUIREM(int(e.size()) == 2 * m, e.size());
}

// of any width: 400 draws miss a given quarter of it with probability (3/4)^400, 1e-50
LAW1(spreadWide, 0.02)
{
	script.clear();
	uint64_t seed = c.draw(1ull << 48);
	int n = 8 + size(c, 1 << 22), from = c.flip() ? c.range(-10, 10) : -(1 << 30) + int(c.draw(1u << 30)), bf = int(c.draw(c.flip() ? 20 : 1 << 22));
	SHOW(seed); SHOW(n); SHOW(from); SHOW(bf);
	c.nontrivial();
	rewind(seed);
	int seen[4][8] = {};
	auto part = [&](int which, LD at) { int k = int(floorl(at)); REQUIREM(k >= 0 && k < (which < 2 ? 4 : 8), k); seen[which][k]++; };
	for (int i = 0; i < DRAWS; i++)
	{
		part(0, LD(mathlib::rand(n)) * 4 / n);
		part(1, (LD(mathlib::randBetween(from, from + n)) - from) * 4 / n);
		part(2, (LD(mathlib::randAmplitude(n)) + n) * 4 / n);
		LD v = mathlib::randAmplitude(bf, bf + n);
		part(3, v < 0 ? 4 + (-v - bf - (v == -LD(bf) - n ? 1e-9L : 0)) * 4 / n : (v - bf) * 4 / n);
	}
	for (int w = 0; w < 4; w++) for (int k = 0; k < (w < 2 ? 4 : 8); k++) REQUIREM(seen[w][k] > 0, std::to_string(w) + " never in part " + std::to_string(k));
}

LAW(spread, 0.02)
{
	script.clear();
	uint64_t seed = c.draw(1ull << 48);
	Real f = positive<Real>(c), a = real<Real>(c), w = positive<Real>(c), p = positive<Real>(c);
	SHOW(seed); SHOW(f); SHOW(a); SHOW(w); SHOW(p);
	if (!(a + w / 4 > a) || !(p + w / 4 > p)) pbt::discard();
	c.nontrivial();
	rewind(seed);
	Halves h[16];
	std::set<int> o3, o2;
	for (int i = 0; i < DRAWS; i++)
	{
		h[0].add(mathlib::rand(f), f / 2);
		h[1].add(mathlib::randBetween(a, Real(a + w)), LD(a) + LD(w) / 2);
		Real s = mathlib::randAmplitude(f), t = mathlib::randAmplitude(p, Real(p + w));
		h[2].add(s, 0); h[3].add(std::fabs(s), f / 2);
		h[4].add(t, 0); h[5].add(std::fabs(t), LD(p) + LD(w) / 2);
		Vec3<Real> v = Vec3<Real>::randomUnitVector();
		o3.insert((v.x < 0) + 2 * (v.y < 0) + 4 * (v.z < 0));
		Vec2<Real> v2 = Vec2<Real>::randomUnitVector();
		o2.insert((v2.x < 0) + 2 * (v2.y < 0));
		ColorRGB<Real> k = ColorRGB<Real>::random();
		ColorRGBA<Real> k4 = ColorRGBA<Real>::random();
		ColorHSV<Real> ks = ColorHSV<Real>::random();
		h[6].add(k.r, 0.5L); h[7].add(k.g, 0.5L); h[8].add(k.b, 0.5L);
		h[9].add(k4.r, 0.5L); h[10].add(k4.g, 0.5L); h[11].add(k4.b, 0.5L);
		h[12].add(ks.h, 180); h[13].add(ks.s, 0.5L); h[14].add(ks.v, 0.5L);
		h[15].add(LD(k.r) - k.g, 0);
	}
	for (int i = 0; i < 16; i++) REQUIREM(h[i].both(), i);
	REQUIREM(o3.size() == 8, o3.size());
	REQUIREM(o2.size() == 4, o2.size());
}
