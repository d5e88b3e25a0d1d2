#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py run PROPERTY [quick|thorough]   build the simulator from /repo, search over seeds, report
  check.py replay FILE                     build it and replay one reported history
  check.py determinism PROPERTY [N]        compare the trace hashes of N seeds across processes

Exit 0: nothing found. Exit 1: VIOLATION line printed. Exit 2: the check could not decide.
"""
import collections, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from suites import SUITES, PROPS, KNOWN, classify_known   # noqa: E402

REPO = os.environ.get("XTYPES_REPO", "/repo")
JOBS = int(os.environ.get("SIM_JOBS", "8"))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:"
           "handle_segv=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:malloc_context_size=12",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=87", LC_ALL="C", LANG="C")
for v in ("LD_PRELOAD", "MALLOC_PERTURB_", "MALLOC_ARENA_MAX"):
    ENV.pop(v, None)


def die(text):
    print("ERROR: " + text, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- build
def build(suite, tier, out):
    s = SUITES[suite]
    os.makedirs(out, exist_ok=True)
    flags = s["flags"] + (s["thorough_flags"] if tier == "thorough" else s["quick_flags"])
    flags = [f.replace("@REPO@", REPO).replace("@HERE@", HERE) for f in flags]

    def compile_one(unit):
        src = os.path.join(HERE, "harness", unit["src"])
        obj = os.path.join(out, unit.get("obj", os.path.basename(unit["src"])) + ".o")
        f = [x.replace("@REPO@", REPO).replace("@HERE@", HERE) for x in unit["flags"]] if "flags" in unit else flags
        cmd = [unit.get("cc", s["cc"])] + f + unit.get("extra", []) + ["-c", src, "-o", obj]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return obj, p.returncode, p.stdout

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(compile_one, s["units"]))
    for obj, rc, text in done:
        if rc:
            print(text[-4000:])
            die("the simulator does not compile")
    exe = os.path.join(out, "sim")
    p = subprocess.run([s["cc"]] + [f.replace("@REPO@", REPO).replace("@HERE@", HERE) for f in s["link"]]
                       + [d[0] for d in done] + ["-o", exe] + s.get("libs", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die("the simulator does not link")
    return exe


# ---------------------------------------------------------------- running
Result = collections.namedtuple("Result", "failed cls msg hash step")


def crash_class(rc, err):
    if rc == 77:
        return "hang", "the run used up its processor time"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        where = re.search(r"#\d+ 0x\w+ in ([^\n]*include/xtypes/[^\n]*)", err)
        return "memory:" + m.group(1), "AddressSanitizer: " + m.group(1) + (" in " + where.group(1)[:300] if where else "")
    m = re.search(r"([^\n]*runtime error: [^\n]*)", err)
    if m:
        return "undefined", m.group(1)[:300]
    m = re.search(r"(terminate called[^\n]*)(\n[^\n]*what[^\n]*)?", err)
    if m:
        return "terminate", (m.group(1) + (m.group(2) or "")).replace("\n", " ")[:300]
    if rc < 0:
        return "signal%d" % -rc, "killed by signal %d" % -rc
    return "exit%d" % rc, "ended with exit code %d: %s" % (rc, err.strip()[-200:].replace("\n", " "))


def replay(exe, path, timeout=120):
    try:
        p = subprocess.run([exe, "replay", path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return Result(True, "hang", "no end in %d s" % timeout, "", "-1")
    m = re.search(r"^(PASS|FAIL) step=(-?\d+) hash=(\w+) cls=(\S*) msg=(.*)$", p.stdout, re.M)
    if m and p.returncode in (0, 1):
        return Result(m.group(1) == "FAIL", m.group(4), m.group(5), m.group(3), m.group(2))
    if p.returncode == 2 and "bad replay file" in p.stderr:
        return Result(False, "bad-file", "", "", "-1")
    cls, msg = crash_class(p.returncode, p.stderr)
    return Result(True, cls, msg, "", "-1")


class Search:
    def __init__(self, exe, prop, profile, work):
        self.exe, self.prop, self.profile, self.work = exe, prop, profile, work
        self.totals = collections.Counter()
        self.fired, self.probes = collections.Counter(), collections.Counter()
        self.states, self.runs = set(), set()
        self.failures = []
        self.extra = collections.Counter()

    def batch(self, first, seconds, max_runs, jobs=JOBS):
        procs = []
        for i in range(jobs):
            st, out = (os.path.join(self.work, n + str(i)) for n in ("status", "out"))
            for f in (st, out):
                if os.path.exists(f):
                    os.remove(f)
            procs.append((subprocess.Popen([self.exe, "batch", self.profile, str(first + i), str(jobs), str(max_runs),
                                            str(seconds), st, out], env=ENV, stdout=subprocess.PIPE,
                                           stderr=subprocess.PIPE, text=True, errors="replace"), st, out))
        top = first
        for p, st, out in procs:
            try:
                so, se = p.communicate(timeout=seconds + 180)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                so, se = p.communicate()
                rc = 77
            seed = struct.unpack("<Q", open(st, "rb").read(8))[0] if os.path.exists(st) and os.path.getsize(st) >= 8 else first
            top = max(top, seed)
            if os.path.exists(out):
                d = json.load(open(out))
                for k in d:
                    if k == "fired":
                        self.fired.update(d[k])
                    elif k == "probes":
                        self.probes.update(d[k])
                    elif k == "extra":
                        self.extra.update(d[k])
                    elif k in ("runs", "steps", "ok", "refused", "nomem", "retries", "runs_with_fault", "runs_with_refusal",
                               "allocs", "seconds", "switches", "ticks"):
                        self.totals[k] += d[k]
                for kind, dest in ((".states", self.states), (".runs", self.runs)):
                    b = open(out + kind, "rb").read()
                    dest.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            m = re.search(r"^FAIL seed=(\d+) step=(-?\d+) hash=(\w+) cls=(\S*) msg=(.*)$", so, re.M)
            if rc == 1 and m:
                self.failures.append((int(m.group(1)), m.group(4), m.group(5)))
            elif rc != 0:
                cls, msg = crash_class(rc, se)
                self.failures.append((seed, cls, msg))
        return top + jobs

    def history(self, seed):
        p = subprocess.run([self.exe, "gen", self.profile, str(seed)], env=ENV, stdout=subprocess.PIPE, text=True)
        if p.returncode:
            die("no history of seed %d" % seed)
        return p.stdout.splitlines()


class Minimiser:
    """Delta debugging over the lines of a history; then faults and numbers become smaller. The class stays."""

    def __init__(self, exe, work, cls, seconds):
        self.exe, self.work, self.cls = exe, work, cls
        self.until = time.time() + seconds
        self.tried = {}
        self.n = 0
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)

    def test(self, lines):
        key = "\n".join(lines)
        if key in self.tried:
            return self.tried[key]
        self.n += 1
        path = os.path.join(self.work, "min%d_%s.txt" % (self.n, hashlib.md5(key.encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            f.write(key + "\n")
        r = replay(self.exe, path, 60)
        os.remove(path)
        ok = r.failed and r.cls == self.cls
        self.tried[key] = ok
        return ok

    def first(self, candidates):
        """The first candidate, in order, that still fails."""
        for i in range(0, len(candidates), JOBS):
            if time.time() > self.until:
                return None
            group = candidates[i:i + JOBS]
            for c, ok in zip(group, self.pool.map(self.test, group)):
                if ok:
                    return c
        return None

    def run(self, lines):
        head, ops = [l for l in lines if l.startswith(HEADS)], [l for l in lines if not l.startswith(HEADS)]
        n = 2
        while len(ops) > 1 and time.time() < self.until:
            size = max(1, len(ops) // n)
            got = self.first([head + ops[:i] + ops[i + size:] for i in range(0, len(ops), size)])
            if got:
                ops = got[len(head):]
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(ops), n * 2)
        changed = True
        while changed and time.time() < self.until:
            changed = False
            for i in range(len(ops)):
                w = ops[i].split()
                alts = []
                if len(w) == 7 and w[5] != "none":
                    alts.append(w[:5] + ["none", "0"])
                    if w[5] in ("sweep", "from"):
                        alts += [w[:5] + ["nth", str(k)] for k in range(1, min(int(w[6]), 24) + 1)]
                    elif int(w[6]) > 1:
                        alts += [w[:6] + [str(k)] for k in sorted({1, int(w[6]) // 2, int(w[6]) - 1}) if 0 < k < int(w[6])]
                for j in range(1, min(5, len(w))):
                    if w[j].isdigit() and int(w[j]) > 0:
                        alts += [w[:j] + [str(k)] + w[j + 1:] for k in sorted({0, 1, int(w[j]) // 2}) if k < int(w[j])]
                got = self.first([head + ops[:i] + [" ".join(a)] + ops[i + 1:] for a in alts])
                if got:
                    ops = got[len(head):]
                    changed = True
            for i in range(len(ops) - 1, -1, -1):
                if len(ops) > 1:
                    got = self.first([head + ops[:i] + ops[i + 1:]])
                    if got:
                        ops = got[len(head):]
                        changed = True
        return head + ops


HEADS = ("profile", "program", "#")


def write_lines(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def gate(exe, lines, work, times=3):
    """The history fails the same way in fresh processes. Returns the result, or None."""
    path = os.path.join(work, "gate.txt")
    write_lines(path, lines)
    rs = [replay(exe, path) for _ in range(times)]
    r = rs[0]
    if r.failed and all(x.failed and x.cls == r.cls and x.hash == r.hash for x in rs):
        return r
    return None


def tree_id():
    p = subprocess.run(["git", "-C", REPO, "rev-parse", "--short", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "include"))):
        dirs.sort()
        for n in sorted(files):
            h.update(open(os.path.join(root, n), "rb").read())
    return p.stdout.strip() + "+" + h.hexdigest()[:12]


def run(prop, tier):
    t0 = time.time()
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    print("VERIF_SEED=%d tier=%s property=%s" % (seed0, tier, prop), flush=True)
    conf = PROPS[prop]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, "build"))
    ENV["SIM_SCRATCH"] = work
    try:
        return run_in(prop, tier, conf, seed0, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_in(prop, tier, conf, seed0, work, t0):
    violations, known, unreproduced = [], {}, []
    parts = []
    for part in conf["parts"]:
        exe = build(part["suite"], tier, os.path.join(work, part["suite"]))
        built = time.time() - t0
        seconds = part[tier]["seconds"]
        max_runs = part[tier].get("max_runs", 10 ** 12)
        s = Search(exe, prop, part["profile"], work)
        first = seed0 * 10 ** 9
        started = time.time()
        s.first = first
        while not violations:
            left = seconds - (time.time() - started)
            if left <= (0 if first == s.first else 2):
                break
            s.failures = []
            first = s.batch(first, left, max_runs)
            if not s.failures:
                break
            for seed, cls, msg in sorted(s.failures):
                lines = s.history(seed)
                r = gate(exe, lines, work)
                if r is None:
                    unreproduced.append({"seed": seed, "cls": cls, "msg": msg})
                    print("not reproduced: seed %d %s %s" % (seed, cls, msg), flush=True)
                    continue
                k = classify_known(prop, r.cls, r.msg)
                if k:
                    known.setdefault(k, [seed, r.msg])
                    continue
                m = Minimiser(exe, work, r.cls, 90 if tier == "quick" else 600)
                small = m.run(lines)
                rs = gate(exe, small, work)
                if rs is None or classify_known(prop, rs.cls, rs.msg):
                    small, rs = lines, r
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                path = os.path.join(HERE, "replays", "%s-%d.txt" % (prop, seed))
                write_lines(path, ["# property %s, seed %d, suite %s, tier %s, tree %s" % (prop, seed, part["suite"], tier, tree_id()),
                                   "# %s: %s" % (rs.cls, rs.msg), "# trace hash %s, failing step %s" % (rs.hash, rs.step),
                                   "# replay: python3 /verif/check.py replay " + path]
                            + [l for l in small if not l.startswith("#")])
                violations.append((seed, rs, path, len(lines), len(small)))
                break
        s.part, s.exe_built, s.search_s = part, built, time.time() - started
        s.next_seed = first
        parts.append(s)
        if violations:
            break
    write_evidence(prop, tier, conf, seed0, parts, violations, known, unreproduced, t0)
    for k in sorted(KNOWN.get(prop, {})):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, KNOWN[prop][k]["what"]), flush=True)
    for k in sorted(known):
        print("  (known finding %s met, first at seed %d: %s)" % (k, known[k][0], known[k][1][:200]))
    t = collections.Counter()
    for s in parts:
        t.update(s.totals)
    print("%s %s: %d runs, %d steps, faults %s, %.1f s" % (prop, tier, t["runs"], t["steps"],
          dict(sum((s.fired for s in parts), collections.Counter())), time.time() - t0), flush=True)
    if violations:
        for seed, r, path, before, after in violations:
            print("seed %d, %d lines minimised to %d, %s: %s" % (seed, before, after, r.cls, r.msg[:600]))
            for l in open(path):
                print("    " + l.rstrip())
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if unreproduced:
        die("%d failures did not replay in a fresh process" % len(unreproduced))
    return 0


def write_evidence(prop, tier, conf, seed0, parts, violations, known, unreproduced, t0):
    tot, fired, probes, extra = (collections.Counter() for _ in range(4))
    for s in parts:
        tot.update(s.totals)
        fired.update(s.fired)
        probes.update(s.probes)
        extra.update(s.extra)
    search = sum(s.search_s for s in parts) or 1
    samples = []
    for s in parts:
        for k in (0, 1):
            samples.append({"profile": s.profile, "seed": s.first + k, "history": s.history(s.first + k)})
    runs = int(tot["runs"])
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(len(s.runs) for s in parts),
        "rule": conf["rule"],
        "samples": samples,
        "seeds": [{"profile": s.profile, "suite": s.part["suite"], "from": s.first, "up_to": s.next_seed} for s in parts],
        "runs_per_hour": int(runs / search * 3600),       # one run is one seed
        "simulated_steps": int(tot["steps"]),
        "simulated_time": conf.get("time", "the code under test reads no clock: simulated time is the number of steps "
                                   "(operations, or scheduling decisions) decided by the simulator"),
        "operations_succeeded": int(tot["ok"]),
        "operations_refused": int(tot["refused"]),
        "operations_out_of_memory": int(tot["nomem"]),
        "operations_retried_after_a_fault": int(tot["retries"]),
        "faults_fired": {k: int(v) for k, v in fired.items()},
        "runs_with_a_fault": int(tot["runs_with_fault"]),
        "runs_with_a_refusal": int(tot["runs_with_refusal"]),
        "distinct_states": sum(len(s.states) for s in parts),
        "distinct_states_measure": conf.get("states", "hashes of all live values after a step (at most 400000 per worker)"),
        "probes": {k: int(v) for k, v in sorted(probes.items())},
        "counters": {k: int(v) for k, v in sorted(extra.items())},
        "real_components": conf["real"],
        "stub_components": conf["stub"],
        "build_s": round(sum(s.exe_built for s in parts[:1]), 1),
        "search_s": round(search, 1),
        "known_findings_met": sorted(known),
        "unreproduced": unreproduced,
        "violations": [{"seed": v[0], "class": v[1].cls, "message": v[1].msg[:1000], "replay": v[2]} for v in violations],
        "tree": tree_id(),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed0, "level": "exploration", "coverage": cov,
                   "assumptions": conf["assumptions"], "wall_s": round(time.time() - t0, 2),
                   "violations": len(violations)}, f, indent=1)
        f.write("\n")


def suite_of(lines):
    prof = [l.split()[1] for l in lines if l.startswith("profile")][0]
    for p in PROPS.values():
        for part in p["parts"]:
            if part["profile"] == prof:
                return part["suite"]
    die("no suite for profile " + prof)


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "run":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(run(a[1], tier))
    if len(a) == 2 and a[0] == "replay":
        lines = open(a[1]).read().splitlines()
        os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
        work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(HERE, "build"))
        try:
            tier = "thorough" if any("tier thorough" in l for l in lines if l.startswith("#")) else "quick"
            exe = build(suite_of(lines), tier, work)
            subprocess.run([exe, "replay", os.path.abspath(a[1]), "-v"], env=ENV)
            r = replay(exe, os.path.abspath(a[1]))
            print(r)
            sys.exit(1 if r.failed else 0)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if len(a) >= 2 and a[0] == "determinism":
        n = int(a[2]) if len(a) > 2 else 400
        work = tempfile.mkdtemp(prefix="det-", dir=os.path.join(HERE, "build"))
        bad = 0
        try:
            for part in PROPS[a[1]]["parts"]:
                exe = build(part["suite"], "quick", os.path.join(work, part["suite"]))
                # the same seeds split over different numbers of processes, each twice
                logs = []
                for procs in (1, 3, 8, 8):
                    step = (n + procs - 1) // procs
                    ps = [subprocess.Popen([exe, "hashes", part["profile"], str(5 + i * step), str(min(step, n - i * step))],
                                           env=ENV, stdout=subprocess.PIPE, text=True) for i in range(procs) if n > i * step]
                    logs.append("".join(p.communicate()[0] for p in ps))
                same = all(l == logs[0] for l in logs)
                print("%s %s: %d seeds x %d: %s" % (a[1], part["profile"], n, len(logs), "identical" if same else "DIFFERENT"))
                bad |= not same
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(2 if bad else 0)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
