#!/usr/bin/env python3
"""Build and run one check.   run.py <property> [quick|thorough]
                              run.py --replay <file>

Builds the check's laws against the headers in /repo's working tree, searches,
shrinks, and writes evidence/<property>.json. Exit 0: held on everything
explored; exit 1 with a VIOLATION line: broken; anything else: the check could
not be run.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
INC = os.path.join(REPO, "libs/mathlib/include")
TESTINC = os.path.join(REPO, "libs/testlib/include")
CATCH = os.path.join(REPO, "deps")

FAST = ["g++", "-std=c++17", "-O1", "-DNDEBUG", "-w"]
SAN = ["clang++", "-std=c++17", "-O1", "-gline-tables-only", "-w",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
TSAN = ["clang++", "-std=c++17", "-O1", "-gline-tables-only", "-DPBT_TSAN", "-w", "-fsanitize=thread"]
FUZZ = ["clang++", "-std=c++17", "-O1", "-gline-tables-only", "-DNDEBUG", "-DPBT_FUZZ", "-w",
        "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
        "-ftrivial-auto-var-init=pattern"]

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"


def load_config():
    with open(os.path.join(HERE, "checks.json")) as f:
        return json.load(f)


def build(prop, flavours, out):
    """Compile law file and engine for each flavour, in parallel."""
    src = os.path.join(HERE, "checks", prop.lower() + ".cpp")
    cfg = load_config()["checks"].get(prop, {})
    extra = ["-I", INC, "-I", os.path.join(HERE, "engine")]
    for d in cfg.get("includes", []):
        extra += ["-I", d.replace("@REPO@", REPO)]
    jobs = []
    for name, flags in flavours:
        for unit, path in (("laws", src), ("engine", os.path.join(HERE, "engine", "engine.cpp"))):
            obj = os.path.join(out, "%s-%s.o" % (name, unit))
            cmd = flags + extra + ["-c", path, "-o", obj]
            if unit == "engine" and name == "fuzz":
                cmd = [a.replace("fuzzer,", "fuzzer-no-link,") for a in cmd]
            jobs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in jobs:
        o, _ = p.communicate()
        if p.returncode != 0:
            sys.stdout.write("BUILD-ERROR %s\n%s\n" % (" ".join(cmd), o[:6000]))
            sys.exit(2)
    bins = {}
    for name, flags in flavours:
        b = os.path.join(out, name)
        cmd = flags + [os.path.join(out, name + "-laws.o"), os.path.join(out, name + "-engine.o"), "-o", b] + cfg.get("libs", [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stdout.write("LINK-ERROR %s\n%s\n" % (" ".join(cmd), r.stderr[:6000]))
            sys.exit(2)
        bins[name] = b
    return bins


def workdir(prop):
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prop + "-", dir=base)


def run_search(binary, flavour, prop, seed, cases, jobs, cap, replay, stats, shrink):
    cmd = [binary, "--seed", str(seed), "--cases", str(cases), "--jobs", str(jobs), "--cap", str(cap),
           "--out-replay", replay, "--stats", stats, "--build", flavour, "--shrink", str(shrink)]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, errors="replace")


def known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k["id"]: k for k in data.get("findings", []) if k["property"] == prop}


def replay_file(path):
    txt = open(path).read()
    prop = re.search(r"^property (\S+)", txt, re.M).group(1)
    flav = re.search(r"^build (\S+)", txt, re.M).group(1)
    out = workdir(prop)
    try:
        name = flav if flav in ("fast", "tsan") else "san"
        bins = build(prop, [(name, {"fast": FAST, "tsan": TSAN, "san": SAN}[name])], out)
        r = subprocess.run([bins[name], "--replay", path, "--out-replay", os.path.join(out, "r")],
                           capture_output=True, text=True, env=ENV)
        sys.stdout.write(r.stdout)
        return r.returncode
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed = abs(seed)
    cfg = load_config()
    c = cfg["checks"].get(prop, {})
    tcfg = dict(cfg["tiers"][tier])
    scale = c.get("scale", 1.0)
    t0 = time.time()
    out = workdir(prop)
    repdir = os.path.join(HERE, "replays")
    os.makedirs(repdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    jobs = min(8, os.cpu_count() or 1)
    try:
        flavours = [("fast", FAST), ("san", SAN)]
        if tier == "thorough":
            flavours.append(("fuzz", FUZZ))
        if c.get("tsan_cases"):
            flavours.append(("tsan", TSAN))
        bins = build(prop, flavours, out)
        tb = time.time() - t0
        results, viol, findings, notes = {}, None, {}, []
        order = [("fast", tcfg["fast_cases"] * scale), ("san", tcfg["san_cases"] * scale * c.get("san_scale", 1.0))]
        if c.get("tsan_cases"):
            # the thread sanitizer wants an address layout that not every kernel grants
            probe = subprocess.run([bins["tsan"], "--seed", "1", "--cases", "1", "--jobs", "1", "--cap", "20", "--out-replay", os.path.join(out, "probe"), "--shrink", "1"],
                                   capture_output=True, text=True, env=ENV, errors="replace")
            if "FATAL: ThreadSanitizer" in probe.stdout + probe.stderr or probe.returncode not in (0, 1, 3):
                notes.append("the thread sanitizer does not start here; data races were looked for by their effects only")
            else:
                order.append(("tsan", c["tsan_cases"] * tcfg["san_cases"] / 30000))
        for flav, cases in order:
            for attempt in range(2):
                replay = os.path.join(repdir, "%s-%s.case" % (prop, flav))
                if os.path.exists(replay):
                    os.remove(replay)
                stats = os.path.join(out, flav + ".json")
                p = run_search(bins[flav], flav, prop, seed + 1000003 * attempt, int(cases), jobs, tcfg["cap"], replay, stats, tcfg["shrink"])
                o, _ = p.communicate()
                for line in o.splitlines():
                    m = re.match(r"FINDING (\S+) (present|absent) (.*)", line)
                    if m:
                        findings[m.group(1)] = (m.group(2), m.group(3))
                if p.returncode == 3:
                    notes.append("%s: a case failed once and not again: %s" % (flav, o[-500:]))
                    continue
                break
            if os.path.exists(stats):
                results[flav] = json.load(open(stats))
            if p.returncode == 1:
                viol = replay
                sys.stdout.write(o)
                break
            if p.returncode not in (0, 3):
                sys.stdout.write(o)
                print("CHECK-ERROR %s build exited %s" % (flav, p.returncode))
                sys.exit(2)
        fuzz_runs = 0
        if tier == "thorough" and not viol:
            viol, fuzz_runs = fuzz(bins, prop, seed, out, repdir, tcfg, jobs)
        listed = known(prop)
        nviol = 1 if viol else 0
        for fid, (state, what) in sorted(findings.items()):
            if state == "present" and fid in listed:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
            elif state == "present":
                nviol += 1
                if not viol:
                    viol = os.path.join(repdir, "%s-%s.txt" % (prop, fid))
                    open(viol, "w").write("property %s\nspecific input %s: %s\n" % (prop, fid, what))
        write_evidence(prop, tier, seed, results, nviol, time.time() - t0, tb, notes, fuzz_runs, findings, listed)
        if viol:
            print("VIOLATION property=%s replay=%s" % (prop, viol))
            sys.exit(1)
        n = sum(r["cases"] for r in results.values())
        print("OK property=%s tier=%s cases=%d build=%.1fs wall=%.1fs" % (prop, tier, n, tb, time.time() - t0))
        sys.exit(0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def fuzz(bins, prop, seed, out, repdir, tcfg, jobs):
    """Coverage-guided search over the same laws, one process per core."""
    procs, runs = [], 0
    for j in range(jobs):
        corpus = os.path.join(out, "corpus%d" % j)
        os.makedirs(corpus)
        env = dict(ENV)
        env["PBT_REPLAY_OUT"] = os.path.join(out, "fuzz%d.case" % j)
        cmd = [bins["fuzz"], corpus, "-seed=%d" % (seed * 100 + j + 1), "-runs=%d" % tcfg["fuzz_runs"],
               "-max_total_time=%d" % tcfg["fuzz_cap"], "-max_len=1024", "-len_control=20", "-timeout=30", "-rss_limit_mb=3000",
               "-artifact_prefix=%s/crash%d-" % (out, j), "-print_final_stats=1"]
        log = open(os.path.join(out, "fuzz%d.log" % j), "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env), j))
    for p, j in procs:
        p.wait()
        txt = open(os.path.join(out, "fuzz%d.log" % j), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", txt)
        if m:
            runs += int(m.group(1))
    for p, j in procs:
        f = os.path.join(out, "fuzz%d.case" % j)
        if p.returncode != 0 and os.path.exists(f):
            dest = os.path.join(repdir, "%s-fuzz.case" % prop)
            for flav in ("fast", "san"):
                ok = True
                for _ in range(3):
                    r = subprocess.run([bins[flav], "--replay", f, "--out-replay", dest, "--build", flav, "--shrink", "15"],
                                       capture_output=True, text=True, env=ENV, errors="replace")
                    ok = ok and r.returncode == 1
                if ok:
                    sys.stdout.write(r.stdout)
                    return dest, runs
        elif p.returncode != 0:
            # a sanitizer report rather than a failed oracle: keep the input
            import glob
            arts = glob.glob(os.path.join(out, "crash%d-crash-*" % j))
            if arts:
                ok = all(subprocess.run([bins["fuzz"], arts[0]], capture_output=True, env=ENV).returncode != 0 for _ in range(3))
                if ok:
                    dest = os.path.join(repdir, "%s-fuzz.bin" % prop)
                    shutil.copy(arts[0], dest)
                    sys.stdout.write(open(os.path.join(out, "fuzz%d.log" % j), errors="replace").read()[-3000:])
                    return dest, runs
    return None, runs


def write_evidence(prop, tier, seed, results, nviol, wall, tb, notes, fuzz_runs, findings, listed):
    fast, san = results.get("fast", {}), results.get("san", {})
    tot = lambda k: sum(r.get(k, 0) for r in results.values())
    cov = {
        "evaluations": tot("cases") + fuzz_runs,
        "distinct_nontrivial": max([r.get("distinct_nontrivial", 0) for r in results.values()] or [0]),
        "rule": (fast or san).get("rule", ""),
        "samples": (fast or san).get("samples", []),
        "nontrivial": tot("nontrivial"),
        "discarded": tot("discarded"),
        "oracle_comparisons": tot("comparisons"),
        "ill_conditioned_comparisons_skipped": tot("ill_conditioned"),
        "cases_optimised_build": fast.get("cases", 0),
        "cases_sanitized_build": san.get("cases", 0),
        "cases_thread_sanitizer_build": results.get("tsan", {}).get("cases", 0),
        "coverage_guided_executions": fuzz_runs,
        "laws": fast.get("laws", {}),
        "build_s": round(tb, 1),
    }
    if any(r.get("distinct_table_full_after") for r in results.values()):
        cov["distinct_note"] = "the table of distinct cases filled up; the count is a lower bound"
    if notes:
        cov["unstable_notes"] = notes
    if findings:
        cov["specific_inputs"] = {k: {"state": v[0], "what": v[1], "listed": k in listed} for k, v in findings.items()}
    msgs = [r["message"] for r in results.values() if r.get("message")]
    if msgs:
        cov["violation_message"] = msgs
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": [
              "float and double instantiations on x86-64, round to nearest, no fused multiply-add",
              "reference values are computed in 80-bit long double with a running error bound; comparisons allow 16 times that bound unless a law states another tolerance",
          ], "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
