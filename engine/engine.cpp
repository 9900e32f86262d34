// Driver: random search over several worker processes, crash and hang
// detection, shrinking, replay, evidence. See pbt.h.
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

std::vector<Law>& laws() { static std::vector<Law> l; return l; }
std::vector<KnownFinding>& knownFindings() { static std::vector<KnownFinding> l; return l; }

void failWith(const std::string& msg) { throw Fail{msg}; }

static uint64_t mix(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static uint64_t hashStr(const std::string& s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
	return h;
}

static const int MAXLAWS = 256, MAXLABELS = 24, MAXW = 64, MAXREC = 1 << 16;
static const uint64_t TABLE = 1ull << 23;
static const int BLOCK = 64;

struct LabelCount { const char* name; uint64_t n; };

struct WorkerStats
{
	uint64_t cases[MAXLAWS], nontrivial[MAXLAWS], discards[MAXLAWS], compared[MAXLAWS], skipped[MAXLAWS];
	LabelCount labels[MAXLAWS][MAXLABELS];
	volatile int curLaw;
	volatile uint64_t curIdx, seq;
	volatile int failed;       // 1: fail, 2: hang
	int failLaw;
	uint64_t failIdx;
	uint64_t failSeq;
	char msg[2048];
};

struct Shared
{
	std::atomic<int> stop;
	std::atomic<uint64_t> distinct;
	std::atomic<uint64_t> dropped;
	WorkerStats w[MAXW];
	// used by single-case children
	volatile int outcome;           // 0 pass, 1 fail, 2 discard
	char msg[4096];
	char desc[1 << 16];
	uint64_t nrec;
	uint64_t rec[MAXREC];
	int isNontrivial;
	std::atomic<uint64_t> table[TABLE];
};

static Shared* sh;
static WorkerStats* me;
static bool liveRec = false;

void Case::start(uint64_t seed)
{
	rng[0] = mix(seed);
	rng[1] = mix(rng[0] ^ 0xD1B54A32D192ED03ull);
	if (!rng[0] && !rng[1]) rng[0] = 1;
}

uint64_t Case::draw(uint64_t n)
{
	if (n == 0) n = 1;
	uint64_t v;
	if (bytes)
	{
		int k = n <= 1 ? 0 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
		v = 0;
		for (int i = 0; i < k; i++)
			v = (v << 8) | (pos < nBytes ? bytes[pos++] : 0);
		v %= n;
	}
	else if (replay)
	{
		v = pos < replay->size() ? (*replay)[pos] % n : 0;
		pos++;
	}
	else
	{
		uint64_t s0 = rng[0], s1 = rng[1];
		uint64_t r = s0 + s1;
		s1 ^= s0;
		rng[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
		rng[1] = (s1 << 37) | (s1 >> 27);
		r = mix(r);
		v = uint64_t(((unsigned __int128)r * n) >> 64);
	}
	rec.push_back(v);
	if (liveRec && sh && sh->nrec < MAXREC) sh->rec[sh->nrec++] = v;
	return v;
}

void Case::label(const char* name)
{
	if (verbose) desc += std::string("[") + name + "] ";
	if (!me) return;
	for (int i = 0; i < MAXLABELS; i++)
	{
		LabelCount& l = me->labels[lawIndex][i];
		if (!l.name) { l.name = name; l.n = 1; return; }
		if (l.name == name || !strcmp(l.name, name)) { l.n++; return; }
	}
}

static uint64_t caseSeed(uint64_t seed, int law, uint64_t idx)
{
	return mix(mix(seed * 0x2545F4914F6CDD1Dull + 77) ^ mix(hashStr(laws()[law].name)) ^ mix(idx + 0x1234567));
}

// returns 0 pass, 1 fail, 2 discard
static int runCase(Case& c, int law, std::string& msg)
{
	c.lawIndex = law;
	try
	{
		laws()[law].fn(c);
		return 0;
	}
	catch (const Fail& f) { msg = f.msg; return 1; }
	catch (const Discard&) { return 2; }
	catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
}

static void addDistinct(uint64_t h)
{
	if (h == 0) h = 1;
	if (sh->distinct.load(std::memory_order_relaxed) > TABLE * 3 / 4) { sh->dropped.fetch_add(1, std::memory_order_relaxed); return; }
	uint64_t i = h & (TABLE - 1);
	for (;;)
	{
		uint64_t cur = sh->table[i].load(std::memory_order_relaxed);
		if (cur == h) return;
		if (cur == 0)
		{
			if (sh->table[i].compare_exchange_strong(cur, h)) { sh->distinct.fetch_add(1, std::memory_order_relaxed); return; }
			if (cur == h) return;
			continue;
		}
		i = (i + 1) & (TABLE - 1);
	}
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

static volatile uint64_t lastSeq = ~0ull;
static volatile int sameTicks = 0;

static void onTick(int)
{
	if (!me) return;
	if (me->seq == lastSeq)
	{
		if (++sameTicks >= 3)
		{
			me->failed = 2;
			me->failLaw = me->curLaw;
			me->failIdx = me->curIdx;
			me->failSeq = me->seq;
			_exit(90);
		}
	}
	else { lastSeq = me->seq; sameTicks = 0; }
}

static void cpuTimer(int sec)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = onTick;
	sigaction(SIGVTALRM, &sa, nullptr);
	itimerval it;
	memset(&it, 0, sizeof it);
	it.it_interval.tv_sec = sec;
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Plan { std::vector<uint64_t> n; };

// Runs worker w of W over the plan; stops at a failure. When `until` is set,
// runs exactly up to (and including) that sequence number.
static int workerLoop(int w, int W, uint64_t seed, const Plan& plan, double deadline, uint64_t until, bool count)
{
	uint64_t maxN = 0;
	for (uint64_t n : plan.n) maxN = std::max(maxN, n);
	me = &sh->w[w];
	uint64_t seq = 0;
	for (uint64_t b = 0; b * BLOCK * W < maxN; b++)
	{
		for (size_t law = 0; law < plan.n.size(); law++)
		{
			if (sh->stop.load(std::memory_order_relaxed) && count) return 0;
			if (count && now() > deadline) return 0;
			for (int k = 0; k < BLOCK; k++)
			{
				uint64_t idx = (b * BLOCK + uint64_t(k)) * uint64_t(W) + uint64_t(w);
				if (idx >= plan.n[law]) break;
				me->curLaw = int(law);
				me->curIdx = idx;
				me->seq = ++seq;
				Case c;
				c.start(caseSeed(seed, int(law), idx));
				std::string msg;
				int r = runCase(c, int(law), msg);
				if (count)
				{
					me->cases[law]++;
					me->compared[law] += c.nCompared;
					me->skipped[law] += c.nSkipped;
					if (r == 2) me->discards[law]++;
					if (r == 0 && c.isNontrivial)
					{
						me->nontrivial[law]++;
						uint64_t h = hashStr(laws()[law].name);
						for (uint64_t x : c.rec) h = mix(h ^ x);
						addDistinct(h);
					}
				}
				if (r == 1)
				{
					me->failed = 1;
					me->failLaw = int(law);
					me->failIdx = idx;
					me->failSeq = seq;
					snprintf(me->msg, sizeof me->msg, "%s", msg.c_str());
					if (count) sh->stop = 1;
					return 1;
				}
				if (until && seq >= until) return 0;
			}
		}
	}
	return 0;
}

struct Outcome { int kind; std::string msg; std::string desc; std::vector<uint64_t> rec; bool nontrivial; };
// kind: 0 pass, 1 fail, 2 discard, 3 crash, 4 hang

static const char* errLog = nullptr;

static Outcome inChild(int law, const std::vector<uint64_t>* choices, uint64_t seed, bool verbose)
{
	Outcome o;
	sh->outcome = -1;
	sh->msg[0] = sh->desc[0] = 0;
	sh->nrec = 0;
	sh->isNontrivial = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0)
	{
		if (errLog)
		{
			int fd = open(errLog, O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (fd >= 0) { dup2(fd, 2); close(fd); }
		}
		me = nullptr;
		rlimit rl{30, 31};
		setrlimit(RLIMIT_CPU, &rl);
		rlimit rc{0, 0};
		setrlimit(RLIMIT_CORE, &rc);
		liveRec = true;
		Case c;
		c.verbose = verbose;
		if (choices) c.replay = choices; else c.start(seed);
		std::string msg;
		int r = runCase(c, law, msg);
		snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
		snprintf(sh->desc, sizeof sh->desc, "%s", c.desc.c_str());
		sh->isNontrivial = c.isNontrivial;
		sh->outcome = r;
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	o.rec.assign(sh->rec, sh->rec + sh->nrec);
	o.nontrivial = sh->isNontrivial != 0;
	o.desc = sh->desc;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->outcome >= 0)
	{
		o.kind = sh->outcome;
		o.msg = sh->msg;
	}
	else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
	{
		o.kind = 4;
		o.msg = "the case does not terminate within its CPU budget";
	}
	else
	{
		o.kind = 3;
		o.msg = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: exit " + std::to_string(WEXITSTATUS(st));
		if (errLog)
		{
			std::ifstream f(errLog);
			std::string line;
			int n = 0;
			while (n < 12 && std::getline(f, line)) { o.msg += "\n#   " + line; n++; }
		}
	}
	return o;
}

static bool bad(const Outcome& o) { return o.kind == 1 || o.kind == 3 || o.kind == 4; }

static std::vector<uint64_t> shrink(int law, std::vector<uint64_t> cur, double budget)
{
	double t0 = now();
	int runs = 0;
	auto attempt = [&](const std::vector<uint64_t>& cand) {
		if (now() - t0 > budget || runs > 6000) return false;
		runs++;
		Outcome o = inChild(law, &cand, 0, false);
		if (o.kind == 4) return false;
		return bad(o);
	};
	auto over = [&] { return now() - t0 > budget || runs > 6000; };
	bool changed = true;
	while (changed && !over())
	{
		changed = false;
		for (size_t len = cur.size(); len >= 1 && !over(); len /= 2)
		{
			for (size_t i = 0; i + len <= cur.size() && !over();)
			{
				std::vector<uint64_t> cand(cur);
				cand.erase(cand.begin() + long(i), cand.begin() + long(i + len));
				if (attempt(cand)) { cur = cand; changed = true; continue; }
				bool nz = false;
				for (size_t k = i; k < i + len; k++) nz = nz || cur[k];
				if (nz)
				{
					cand = cur;
					for (size_t k = i; k < i + len; k++) cand[k] = 0;
					if (attempt(cand)) { cur = cand; changed = true; }
				}
				i += len;
			}
			if (len == 1) break;
		}
		for (size_t i = 0; i < cur.size() && !over(); i++)
		{
			uint64_t lo = 0, hi = cur[i];      // hi fails; find a small failing value
			while (lo < hi && !over())
			{
				uint64_t mid = lo + (hi - lo) / 2;
				std::vector<uint64_t> cand(cur);
				cand[i] = mid;
				if (attempt(cand)) hi = mid; else lo = mid + 1;
			}
			if (hi < cur[i])
			{
				std::vector<uint64_t> cand(cur);
				cand[i] = hi;
				if (attempt(cand)) { cur = cand; changed = true; }
			}
		}
	}
	while (!cur.empty() && cur.back() == 0) cur.pop_back();
	return cur;
}

static std::string jsonEsc(const std::string& s)
{
	std::string r;
	for (char ch : s)
	{
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if (ch == '\t') r += ' ';
		else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) r += '?';
		else r += ch;
	}
	return r;
}

static void writeReplay(const std::string& path, const std::string& build, int law, const std::vector<uint64_t>& choices,
	const Outcome& o, const std::string& extra)
{
	std::ofstream f(path);
	f << "property " << PROPERTY << "\n";
	f << "build " << build << "\n";
	f << "law " << laws()[law].name << "\n";
	f << extra;
	f << "choices";
	for (uint64_t v : choices) f << " " << v;
	f << "\n# " << o.msg << "\n";
	std::istringstream is(o.desc);
	std::string line;
	while (std::getline(is, line)) f << "# " << line << "\n";
}

static int lawByName(const std::string& n)
{
	for (size_t i = 0; i < laws().size(); i++) if (laws()[i].name == n) return int(i);
	return -1;
}

} // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZ

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	if (size < 1) return 0;
	int law = data[0] % int(laws().size());
	if (const char* only = getenv("PBT_LAW")) { int l = lawByName(only); if (l >= 0) law = l; }
	Case c;
	c.bytes = data + 1;
	c.nBytes = size - 1;
	std::string msg;
	int r = runCase(c, law, msg);
	if (r == 1)
	{
		if (const char* out = getenv("PBT_REPLAY_OUT"))
		{
			Outcome o{1, msg, "", c.rec, false};
			writeReplay(out, "fuzz", law, c.rec, o, "");
		}
		fprintf(stderr, "PBT-FAIL %s: %s\n", laws()[law].name.c_str(), msg.c_str());
		abort();
	}
	return 0;
}

#else

int main(int argc, char** argv)
{
	std::map<std::string, std::string> opt;
	std::string mode = "run";
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		if (a == "--list") mode = "list";
		else if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i];
	}
	if (opt.count("replay")) mode = "replay";
	if (opt.count("bytes")) mode = "bytes";
	if (mode == "list")
	{
		for (auto& l : laws()) printf("%s\n", l.name.c_str());
		return 0;
	}
	// order independent of the linker's whims
	std::sort(laws().begin(), laws().end(), [](const Law& a, const Law& b) { return a.name < b.name; });
	if (laws().size() > MAXLAWS) { fprintf(stderr, "too many laws\n"); return 2; }
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED) { perror("mmap"); return 2; }

	uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
	std::string build = opt.count("build") ? opt["build"] : "fast";
	std::string outReplay = opt.count("out-replay") ? opt["out-replay"] : "/tmp/replay.case";
	static std::string elog = outReplay + ".stderr";
	errLog = elog.c_str();
	int W = opt.count("jobs") ? atoi(opt["jobs"].c_str()) : 8;
	W = std::max(1, std::min(W, MAXW));
	uint64_t perLaw = opt.count("cases") ? strtoull(opt["cases"].c_str(), nullptr, 10) : 20000;
	double cap = opt.count("cap") ? atof(opt["cap"].c_str()) : 400;
	double shrinkBudget = opt.count("shrink") ? atof(opt["shrink"].c_str()) : 15;

	Plan plan;
	for (auto& l : laws())
	{
		uint64_t n = uint64_t(double(perLaw) * l.weight);
		if (opt.count("law") && l.name.rfind(opt["law"], 0) != 0) n = 0;
		plan.n.push_back(n);
	}

	if (mode == "replay" || mode == "bytes")
	{
		// replay a saved case (or, with --bytes, a fuzzer input)
		int law = -1;
		std::vector<uint64_t> ch;
		std::string hist;
		std::ifstream f(opt[mode]);
		if (!f) { fprintf(stderr, "cannot read %s\n", opt[mode].c_str()); return 2; }
		std::string line;
		while (std::getline(f, line))
		{
			if (line.rfind("law ", 0) == 0) law = lawByName(line.substr(4));
			if (line.rfind("history ", 0) == 0) hist = line.substr(8);
			if (line.rfind("choices", 0) == 0)
			{
				std::istringstream is(line.substr(7));
				uint64_t v;
				while (is >> v) ch.push_back(v);
			}
		}
		if (law < 0) { fprintf(stderr, "no such law\n"); return 2; }
		if (!hist.empty())
		{
			// history <worker> <workers> <seed> <perLaw> <until>
			std::istringstream is(hist);
			int w, ws; uint64_t s, per, until;
			is >> w >> ws >> s >> per >> until;
			Plan p;
			for (auto& l : laws()) p.n.push_back(uint64_t(double(per) * l.weight));
			pid_t pid = fork();
			if (pid == 0) _exit(workerLoop(w, ws, s, p, 1e300, until, false));
			int st = 0;
			waitpid(pid, &st, 0);
			bool b = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
			printf("REPLAY %s %s\n", b ? "fail" : "pass", sh->w[w].msg);
			return b ? 1 : 0;
		}
		Outcome o = inChild(law, &ch, 0, true);
		if (bad(o) && opt.count("shrink"))
		{
			std::vector<uint64_t> m = shrink(law, o.rec.empty() ? ch : o.rec, shrinkBudget);
			Outcome o2 = inChild(law, &m, 0, true);
			if (bad(o2)) { ch = m; o = o2; }
			writeReplay(outReplay, build, law, ch, o, "");
		}
		printf("%s", o.desc.c_str());
		printf("REPLAY %s %s\n", bad(o) ? "fail" : "pass", o.msg.c_str());
		return bad(o) ? 1 : 0;
	}

	double t0 = now(), deadline = t0 + cap;
	std::vector<pid_t> pids;
	fflush(stdout);
	for (int w = 0; w < W; w++)
	{
		pid_t pid = fork();
		if (pid == 0)
		{
			int fd = open("/dev/null", O_WRONLY);
			if (fd >= 0) { dup2(fd, 2); }
			rlimit rc{0, 0};
			setrlimit(RLIMIT_CORE, &rc);
			me = &sh->w[w];
			cpuTimer(8);
			_exit(workerLoop(w, W, seed, plan, deadline, 0, true));
		}
		pids.push_back(pid);
	}
	struct F { int w, law; uint64_t idx, seq; std::string msg; };
	std::vector<F> fails;
	for (int left = W; left > 0;)
	{
		int st = 0;
		pid_t p = wait(&st);
		if (p < 0) break;
		int w = -1;
		for (int i = 0; i < W; i++) if (pids[size_t(i)] == p) w = i;
		if (w < 0) continue;
		left--;
		WorkerStats& s = sh->w[w];
		if (s.failed) fails.push_back(F{w, s.failLaw, s.failIdx, s.failSeq, s.failed == 2 ? "hang" : s.msg});
		else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
		{
			sh->stop = 1;
			fails.push_back(F{w, s.curLaw, s.curIdx, s.seq, "crash"});
		}
	}
	std::sort(fails.begin(), fails.end(), [](const F& a, const F& b) { return a.seq != b.seq ? a.seq < b.seq : a.w < b.w; });

	int violations = 0;
	std::string vmsg;
	for (auto& f : fails)
	{
		Outcome o = inChild(f.law, nullptr, caseSeed(seed, f.law, f.idx), true);
		if (bad(o))
		{
			std::vector<uint64_t> m = o.kind == 4 ? o.rec : shrink(f.law, o.rec, shrinkBudget);
			bool ok = true;
			Outcome last;
			for (int k = 0; k < (o.kind == 4 ? 1 : 3); k++) { last = inChild(f.law, &m, 0, true); ok = ok && bad(last); }
			if (!ok)
			{
				m = o.rec;
				ok = true;
				for (int k = 0; k < 3; k++) { last = inChild(f.law, &m, 0, true); ok = ok && bad(last); }
			}
			if (!ok) { last = o; }
			writeReplay(outReplay, build, f.law, m, last, "");
			printf("FAIL law=%s %s\n%s", laws()[size_t(f.law)].name.c_str(), last.msg.c_str(), last.desc.c_str());
			violations = 1;
			vmsg = laws()[size_t(f.law)].name + ": " + last.msg;
			break;
		}
		// Not reproducible on its own: state carried over from earlier calls?
		int hits = 0;
		for (int k = 0; k < 2; k++)
		{
			pid_t pid = fork();
			if (pid == 0) _exit(workerLoop(f.w, W, seed, plan, 1e300, f.seq, false));
			int st = 0;
			waitpid(pid, &st, 0);
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) hits++;
		}
		if (hits)
		{
			Outcome d;
			d.kind = 1;
			d.msg = "fails only after the calls before it in this run (state carried between calls, or uninitialised memory): " + f.msg;
			d.desc = o.desc;
			std::ostringstream h;
			h << "history " << f.w << " " << W << " " << seed << " " << perLaw << " " << f.seq << "\n";
			writeReplay(outReplay, build, f.law, o.rec, d, h.str());
			printf("FAIL law=%s %s\n%s", laws()[size_t(f.law)].name.c_str(), d.msg.c_str(), d.desc.c_str());
			violations = 1;
			vmsg = laws()[size_t(f.law)].name + ": " + d.msg;
			break;
		}
		printf("NOTE law=%s idx=%llu failed once and not again: %s\n", laws()[size_t(f.law)].name.c_str(), (unsigned long long)f.idx, f.msg.c_str());
	}

	// known findings
	std::string findings;
	for (auto& k : knownFindings())
	{
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0)
		{
			rlimit rl{30, 31};
			setrlimit(RLIMIT_CPU, &rl);
			bool p = k.present();
			_exit(p ? 10 : 0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		bool present = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
		printf("FINDING %s %s %s\n", k.id, present ? "present" : "absent", k.what);
	}

	// evidence
	if (opt.count("stats"))
	{
		std::ofstream e(opt["stats"]);
		uint64_t cases = 0, nt = 0, disc = 0, cmp = 0, skip = 0;
		std::ostringstream per;
		bool first = true;
		for (size_t l = 0; l < laws().size(); l++)
		{
			uint64_t a = 0, b = 0, d = 0, m = 0, s = 0;
			std::map<std::string, uint64_t> lab;
			for (int w = 0; w < W; w++)
			{
				a += sh->w[w].cases[l]; b += sh->w[w].nontrivial[l]; d += sh->w[w].discards[l];
				m += sh->w[w].compared[l]; s += sh->w[w].skipped[l];
				for (int i = 0; i < MAXLABELS && sh->w[w].labels[l][i].name; i++)
					lab[sh->w[w].labels[l][i].name] += sh->w[w].labels[l][i].n;
			}
			cases += a; nt += b; disc += d; cmp += m; skip += s;
			if (!first) per << ",";
			first = false;
			per << "\n  \"" << jsonEsc(laws()[l].name) << "\": {\"cases\": " << a << ", \"nontrivial\": " << b << ", \"discarded\": " << d
				<< ", \"comparisons\": " << m << ", \"ill_conditioned\": " << s << ", \"classes\": {";
			bool lf = true;
			for (auto& kv : lab) { if (!lf) per << ", "; lf = false; per << "\"" << jsonEsc(kv.first) << "\": " << kv.second; }
			per << "}}";
		}
		e << "{\"cases\": " << cases << ", \"nontrivial\": " << nt << ", \"discarded\": " << disc << ", \"comparisons\": " << cmp
			<< ", \"ill_conditioned\": " << skip << ", \"distinct_nontrivial\": " << sh->distinct.load()
			<< ", \"distinct_table_full_after\": " << (sh->dropped.load() ? sh->distinct.load() : 0)
			<< ", \"violations\": " << violations << ", \"message\": \"" << jsonEsc(vmsg) << "\", \"rule\": \"" << jsonEsc(RULE) << "\", \"wall\": " << (now() - t0)
			<< ",\n\"laws\": {" << per.str() << "},\n\"samples\": [";
		// a few cases of this run, written out
		first = true;
		int want = 10;
		size_t step = std::max<size_t>(1, laws().size() / 10);
		for (size_t l = 0; l < laws().size() && want > 0; l += step)
		{
			if (!plan.n[l]) continue;
			for (uint64_t i = 0; i < 30; i++)
			{
				Outcome o = inChild(int(l), nullptr, caseSeed(seed, int(l), i), true);
				if (o.kind == 0 && o.nontrivial)
				{
					if (!first) e << ",";
					first = false;
					e << "\n \"" << jsonEsc(laws()[l].name + ": " + o.desc) << "\"";
					want--;
					break;
				}
			}
		}
		e << "]}\n";
	}
	if (violations) { printf("RESULT fail\n"); return 1; }
	if (!fails.empty()) { printf("RESULT unstable\n"); return 3; }
	printf("RESULT pass\n");
	return 0;
}

#endif
