// Property-based testing engine used by every check in this directory.
//
// A "law" is one executable statement of (part of) a property: a function that
// draws its inputs from a Case (a recorded sequence of integer choices), runs
// the code under test and compares it with an oracle. Cases are a pure
// function of (VERIF_SEED, law, index); a failing case is shrunk on its choice
// sequence, replayed, and written out as a replay file.
//
// The same laws can be driven by libFuzzer (see engine.cpp, PBT_FUZZ).
#pragma once

#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

typedef long double LD;

struct Fail { std::string msg; };
struct Discard { };

class Case
{
public:
	// ---- choices -------------------------------------------------------
	uint64_t draw(uint64_t n);                 // uniform in [0, n), n >= 1
	bool flip() { return draw(2) != 0; }
	bool oneIn(uint64_t n) { return draw(n) == n - 1; }   // 0 (simplest) = false
	int range(int lo, int hi) { return lo + int(draw(uint64_t(int64_t(hi) - lo + 1))); }

	// ---- classification -------------------------------------------------
	void label(const char* name);              // counts the case under a class
	void nontrivial(bool b = true) { if (b) isNontrivial = true; }
	void skipped() { nSkipped++; }             // an ill-conditioned comparison

	// ---- description (only kept when replaying) --------------------------
	bool verbose = false;
	std::string desc;
	template <class T> void show(const char* name, const T& value)
	{
		if (!verbose) return;
		std::ostringstream os;
		os.precision(std::numeric_limits<double>::max_digits10);
		os << name << " = " << value << "\n";
		desc += os.str();
	}
	void note(const std::string& s) { if (verbose) desc += s + "\n"; }

	// ---- state ----------------------------------------------------------
	bool isNontrivial = false;
	uint64_t nCompared = 0, nSkipped = 0;
	std::vector<uint64_t> rec;
	const std::vector<uint64_t>* replay = nullptr;
	size_t pos = 0;
	uint64_t rng[2];
	const uint8_t* bytes = nullptr;
	size_t nBytes = 0;
	int lawIndex = 0;

	void start(uint64_t seed);
};

typedef void (*LawFn)(Case&);

struct Law
{
	std::string name;
	LawFn fn;
	double weight;      // share of the case budget, 1 = normal
};

std::vector<Law>& laws();
struct Reg { Reg(const char* name, LawFn fn, double weight) { laws().push_back(Law{name, fn, weight}); } };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

// LAW(name, weight): body is a template over Real, registered for float and double
#define LAW(ID, WEIGHT) \
	template <class Real> static void law_##ID(pbt::Case& c); \
	static pbt::Reg PBT_CAT(regf_, ID)(#ID "<float>", &law_##ID<float>, WEIGHT); \
	static pbt::Reg PBT_CAT(regd_, ID)(#ID "<double>", &law_##ID<double>, WEIGHT); \
	template <class Real> static void law_##ID(pbt::Case& c)

// LAW1: not a template
#define LAW1(ID, WEIGHT) \
	static void law_##ID(pbt::Case& c); \
	static pbt::Reg PBT_CAT(reg_, ID)(#ID, &law_##ID, WEIGHT); \
	static void law_##ID(pbt::Case& c)

struct KnownFinding { const char* id; const char* what; bool (*present)(); };
std::vector<KnownFinding>& knownFindings();
// FINDING(id, what): body returns true while the recorded defect is present for its specific input
#define FINDING(ID, WHAT) \
	static bool finding_##ID(); \
	static struct RegF_##ID { RegF_##ID() { pbt::knownFindings().push_back(pbt::KnownFinding{#ID, WHAT, &finding_##ID}); } } regF_##ID; \
	static bool finding_##ID()

extern const char* RULE;        // each check states its rule
extern const char* PROPERTY;

[[noreturn]] void failWith(const std::string& msg);
[[noreturn]] inline void discard() { throw Discard(); }

template <class A> std::string str(const A& a)
{
	std::ostringstream os;
	os.precision(21);
	os << a;
	return os.str();
}

#define REQUIRE(...) do { c.nCompared++; if (!(__VA_ARGS__)) pbt::failWith(std::string("line ") + std::to_string(__LINE__) + ": expected " #__VA_ARGS__); } while (0)
#define REQUIREM(COND, MSG) do { c.nCompared++; if (!(COND)) pbt::failWith(std::string("line ") + std::to_string(__LINE__) + ": expected " #COND " -- " + pbt::str(MSG)); } while (0)

// ---------------------------------------------------------------------------
// Reference arithmetic: value in long double plus a running bound on the error
// a straightforward evaluation in Real may make. `e` is first order, and the
// comparisons below allow K times as much.
// ---------------------------------------------------------------------------

template <class Real>
struct Num
{
	LD v, e;
	static LD u() { return LD(std::numeric_limits<Real>::epsilon()); }
	Num() : v(0), e(0) {}
	Num(LD v_, LD e_) : v(v_), e(e_) {}
	template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
	Num(T x) : v(LD(x)), e(0) {}
	static Num mk(LD v, LD e) { return Num(v, e + fabsl(v) * u()); }

	friend Num operator+(Num a, Num b) { return mk(a.v + b.v, a.e + b.e); }
	friend Num operator-(Num a, Num b) { return mk(a.v - b.v, a.e + b.e); }
	Num operator-() const { return Num(-v, e); }
	friend Num operator*(Num a, Num b) { return mk(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e); }
	friend Num operator/(Num a, Num b)
	{
		LD lo = fabsl(b.v) - b.e * 4;
		if (!(lo > 0)) return Num(b.v != 0 ? a.v / b.v : LD(0), std::numeric_limits<LD>::infinity());
		LD q = a.v / b.v;
		return mk(q, (a.e + fabsl(q) * b.e) / lo);
	}
	Num& operator+=(Num b) { return *this = *this + b; }
	Num& operator-=(Num b) { return *this = *this - b; }
	Num& operator*=(Num b) { return *this = *this * b; }
	Num& operator/=(Num b) { return *this = *this / b; }
	bool bad() const { return !(e < std::numeric_limits<LD>::infinity()) || !(fabsl(v) < std::numeric_limits<LD>::infinity()); }
	// widen by an absolute amount
	Num wide(LD d) const { return Num(v, e + d); }
};

template <class R> Num<R> nsqrt(Num<R> a)
{
	if (a.v <= 0) return Num<R>(0, a.e > 0 ? sqrtl(a.e - (a.v < 0 ? a.v : 0)) : LD(0));
	LD s = sqrtl(a.v);
	LD e1 = a.e / s, e2 = sqrtl(a.e);        // whichever bound is smaller holds
	return Num<R>::mk(s, e1 < e2 ? e1 : e2);
}
template <class R> Num<R> nsin(Num<R> a) { LD v = sinl(a.v); return Num<R>(v, a.e + Num<R>::u()); }
template <class R> Num<R> ncos(Num<R> a) { LD v = cosl(a.v); return Num<R>(v, a.e + Num<R>::u()); }
template <class R> Num<R> nabs(Num<R> a) { return Num<R>(fabsl(a.v), a.e); }
template <class R> Num<R> nexp(Num<R> a) { LD v = expl(a.v); return Num<R>::mk(v, v * (a.e + Num<R>::u())); }

template <class R> struct NVec2 { Num<R> x, y; };
template <class R> struct NVec3 { Num<R> x, y, z; };

const LD K_DEFAULT = 16;

template <class Real>
void near_(Case& c, const char* what, int line, Real actual, Num<Real> ref, LD K = K_DEFAULT)
{
	c.nCompared++;
	if (ref.bad()) { c.skipped(); return; }
	LD tol = K * ref.e + LD(std::numeric_limits<Real>::min()) * 16;
	LD d = fabsl(LD(actual) - ref.v);
	if (!(d <= tol))
		failWith("line " + std::to_string(line) + ": " + what + ": got " + str(LD(actual)) + ", expected " +
			str(ref.v) + " +- " + str(tol));
}

#define NEAR(ACT, REF) pbt::near_<Real>(c, #ACT, __LINE__, (ACT), (REF))
#define NEARK(ACT, REF, K) pbt::near_<Real>(c, #ACT, __LINE__, (ACT), (REF), (K))
// plain absolute tolerance
#define CLOSE(ACT, REF, TOL) pbt::near_<Real>(c, #ACT, __LINE__, (ACT), pbt::Num<Real>(pbt::LD(REF), pbt::LD(TOL)), 1)

} // namespace pbt
