#!/usr/bin/env python3
"""Supervisor of the model checks.

  run.py check ID      run the check of one property (tier from VERIF_TIER)
  run.py replay FILE   re-execute one recorded violation
  run.py setup         build what every check needs (only warms the caches)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: an error of the check.
"""
import hashlib, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
TARGET = os.path.join(V, "target", "mc")
EVID = os.path.join(V, "evidence")
REPLAYS = os.path.join(V, "replays")
JOBS = 8
QUIET_S = 30          # a case that takes more processor time than this does not return
QUIET_WALL_S = 240    # nor does one that takes longer than this
RSS_LIMIT = 5 << 30
ALLOW = "-A warnings -A dangerous_implicit_autorefs"

CONFIGS = {
    "debug": dict(features="std,ptr"),
    "release": dict(features="std,ptr", release=True),
    "debug-nostd-noptr": dict(features=""),
    "release-nostd-noptr": dict(features="", release=True),
    "debug-nostd-ptr": dict(features="ptr"),
    "release-nostd-ptr": dict(features="ptr", release=True),
    "debug-std-noptr": dict(features="std"),
    "release-std-noptr": dict(features="std", release=True),
    "low-threshold": dict(features="std,ptr", flags="--cfg indexing_mc"),
    "asan": dict(features="std,ptr,exact", flags="-Zsanitizer=address", nightly=True, tier="small"),
}
BASE = ["debug", "release", "debug-nostd-noptr"]
MEM = BASE + ["asan"]
PTR = ["debug", "release", "debug-nostd-ptr", "asan"]
DYNAMIC = {
    "C01": BASE, "C02": BASE, "C03": BASE, "C04": BASE, "C05": BASE, "C06": BASE, "C07": BASE + ["debug-nostd-ptr"],
    "C08": MEM, "C09": MEM, "C10": MEM, "C11": MEM, "C12": MEM, "C13": MEM,
    "C18": MEM + ["low-threshold"], "C19": MEM, "C20": MEM, "C21": MEM,
    "C22": ["debug", "release", "debug-nostd-noptr", "low-threshold", "asan"],
    "C23": ["debug", "release", "debug-nostd-ptr"], "C24": PTR, "C25": PTR + ["low-threshold"],
    "C26": BASE + ["debug-nostd-ptr"],
}
LEVEL = {"C22": "fault_enumeration"}

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED") or 0)


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def build(config, bins):
    """Build binaries of the harness in one configuration, against the current working tree of /repo."""
    c = CONFIGS[config]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            if k != "CARGO_HOME":
                del env[k]
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, config)
    env["RUSTFLAGS"] = (ALLOW + " " + c.get("flags", "")).strip()
    cmd = ["cargo"] + (["+nightly"] if c.get("nightly") else []) + ["build", "--offline", "-q"]
    if c["features"]:
        cmd += ["--features", c["features"]]
    if c.get("release"):
        cmd += ["--release"]
    tgt = []
    if c.get("nightly"):
        tgt = ["--target", "x86_64-unknown-linux-gnu"]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd + tgt, cwd=os.path.join(V, "mc"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("building %s (%s) failed:\n%s" % (",".join(bins), config, p.stdout[-6000:]))
    d = [TARGET, config] + (["x86_64-unknown-linux-gnu"] if tgt else []) + ["release" if c.get("release") else "debug"]
    return {b: os.path.join(*d, b) for b in bins}


def build_all(configs, bins):
    out, errs, ths = {}, [], []

    def go(c):
        try:
            out[c] = build(c, bins)
        except Exception as e:
            errs.append(e)
    for c in configs:
        t = threading.Thread(target=go, args=(c,))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    if errs:
        raise errs[0] if isinstance(errs[0], CheckError) else CheckError(repr(errs[0]))
    return out


# ---------------------------------------------------------------- running

def env_for(config, tier):
    env = dict(os.environ)
    if tier.endswith("-novec"):
        tier, env["MC_NOVEC"] = tier[:-6], "1"
    env["MC_TIER"] = CONFIGS[config].get("tier", tier) if tier != "thorough" or not CONFIGS[config].get("tier") else "quick"
    env["ASAN_OPTIONS"] = "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0"
    env["RUST_BACKTRACE"] = "0"
    return env


def units(path, config, tier):
    p = subprocess.run([path, "list"], env=env_for(config, tier), stdout=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise CheckError("%s list: exit %d" % (path, p.returncode))
    return [u for u in p.stdout.split("\n") if u]


class Result:
    """kind: ok, fail, crash, hang, memory"""
    def __init__(self, kind, case=0, msg="", stat=None, desc=None):
        self.kind, self.case, self.msg, self.stat, self.desc = kind, case, msg, stat, desc


live = set()
live_lock = threading.Lock()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def rss(pid):
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * 4096
    except OSError:
        return 0


def cpu(pid):
    """processor time used so far"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            a = f.read().rsplit(")", 1)[1].split()
            return (int(a[11]) + int(a[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0


def run_unit(path, config, tier, unit, case=0, stop=None, until_desc=False):
    fd, prog = tempfile.mkstemp(prefix="mcprog")
    os.close(fd)
    out_fd, out = tempfile.mkstemp(prefix="mcout")
    err_fd, err = tempfile.mkstemp(prefix="mcerr")
    try:
        cmd = [path, "unit", unit, prog] + ([str(case)] if case else [])
        p = subprocess.Popen(cmd, env=env_for(config, tier), stdout=out_fd, stderr=err_fd, stdin=subprocess.DEVNULL, start_new_session=True)
        with live_lock:
            live.add(p)
        kind, last, since, used = None, -1, time.time(), 0
        wait = 0.005
        while True:
            try:
                p.wait(wait)
                break
            except subprocess.TimeoutExpired:
                pass
            wait = min(0.25, wait * 2)
            if stop is not None and stop.is_set():
                kill(p)
                p.wait()
                return None
            now = progress(prog)
            if now != last:
                last, since, used = now, time.time(), cpu(p.pid)
            elif time.time() - since > QUIET_S and (cpu(p.pid) - used > QUIET_S or time.time() - since > QUIET_WALL_S):
                kind = "hang"
            elif rss(p.pid) > RSS_LIMIT:
                kind = "memory"
            elif until_desc and now > case:
                # the description has been printed
                kill(p)
                p.wait()
                break
            if kind:
                kill(p)
                p.wait()
                break
        with live_lock:
            live.discard(p)
        now = progress(prog)
        so = open(out, errors="replace").read()
        se = open(err, errors="replace").read()
    finally:
        os.close(out_fd)
        os.close(err_fd)
        for f in (prog, out, err):
            try:
                os.unlink(f)
            except OSError:
                pass
    desc = None
    for l in so.split("\n"):
        if l.startswith("DESC\t"):
            desc = l.split("\t")[1:]
    if kind:
        m = "a call does not return within %d s" % QUIET_S if kind == "hang" else "memory use exceeds %d bytes" % RSS_LIMIT
        return Result(kind, now, m, desc=desc)
    for l in so.split("\n"):
        if l.startswith("STAT\t"):
            if p.returncode == 0:
                return Result("ok", now, stat=json.loads(l[5:]), desc=desc)
        if l.startswith("FAIL\t"):
            _, c, m = l.split("\t", 2)
            if p.returncode == 3:
                return Result("fail", int(c), m, desc=desc)
    if until_desc and desc:
        return Result("ok", now, desc=desc)
    m = "ended with status %d" % p.returncode
    if p.returncode < 0:
        try:
            m = "killed by " + signal.Signals(-p.returncode).name
        except ValueError:
            pass
    s = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", se)
    if s:
        m = "AddressSanitizer: " + re.sub(r"0x[0-9a-f]+", "0x..", s.group(1))
    elif se.strip():
        m += ": " + se.strip().replace("\n", " ")[-300:]
    return Result("crash", now, m, desc=desc)


def progress(f):
    try:
        b = open(f, "rb").read(8)
        return int.from_bytes(b, "little") if len(b) == 8 else 0
    except OSError:
        return 0


def explore(tasks, tier, stop_on_failure=True):
    """tasks: (config, bin, path, unit). Returns [(task, Result)] of all that finished."""
    q = queue.Queue()
    for t in tasks:
        q.put(t)
    res, lock, stop, errs = [], threading.Lock(), threading.Event(), []

    def work():
        while not stop.is_set():
            try:
                t = q.get_nowait()
            except queue.Empty:
                return
            try:
                s0 = time.time()
                r = run_unit(t[2], t[0], tier, t[3], stop=stop if stop_on_failure else None)
                if os.environ.get("MC_TIMES"):
                    log("TIME %7.1f %s %s %s" % (time.time() - s0, t[1], t[0], t[3]))
            except Exception as e:
                errs.append(e)
                stop.set()
                return
            if r is None:
                return
            with lock:
                res.append((t, r))
            if r.kind != "ok" and stop_on_failure:
                stop.set()
    ths = [threading.Thread(target=work) for _ in range(JOBS)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise CheckError(repr(errs[0]))
    return res


# ---------------------------------------------------------------- findings, replays, evidence

def known():
    """Lines `known: property=<id> <description of the failing case>` (open) and `fixed: ...` (suppress nothing)."""
    k = {}
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m:
                k.setdefault(m.group(1), set()).add(m.group(2))
    return k


def write_replay(prop, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    rec = dict(rec, property=prop, replay_with="python3 /verif/run.py replay <this file>")
    h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    f = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
    with open(f, "w") as o:
        json.dump(rec, o, indent=1)
    return f


def write_evidence(prop, coverage, wall, violations, level, assumptions):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as o:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=assumptions,
                       wall_s=round(time.time() - wall, 2), violations=violations), o, indent=1)


ASSUME = [
    "the reference models in /verif/mc are right",
    "rustc compiles the explored builds as it compiles other builds with the same flags",
    "behaviours beyond the stated bounds are not covered",
]


def stats(res, primary):
    """Sums: the space explored, as measured in the primary build; executions, over all builds."""
    c = dict(states=0, transitions=0, executions=0, nontrivial=0, outcomes=0, units=0)
    per, samples = {}, []
    for (config, b, _, u), r in sorted(res, key=lambda x: (x[0][0] != primary, x[0][1], x[0][3])):
        if r.kind != "ok":
            continue
        s = r.stat
        c["units"] += 1
        c["executions"] += s["cases"]
        per[config] = per.get(config, 0) + s["cases"]
        if config == primary:
            for k in ("states", "transitions", "nontrivial", "outcomes"):
                c[k] += s[k]
            samples += s["samples"]
    step = max(1, len(samples) // 12)
    return c, per, samples[::step][:14]


def report(prop, kind, msg, desc, rec):
    """Print the verdict on one confirmed failure. True if it is a new violation."""
    if desc in known().get(prop, ()):
        print("KNOWN-FINDING: property=%s %s" % (prop, desc), flush=True)
        return False
    f = write_replay(prop, dict(rec, kind=kind, message=msg, case_description=desc))
    print("case: %s" % desc)
    print("result: %s" % msg)
    print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)
    return True


# ---------------------------------------------------------------- dynamic checks

def confirm(prop, task, r, tier):
    config, b, path, unit = task
    r2 = run_unit(path, config, tier, unit, case=max(r.case, 1))
    if r2.kind != r.kind or r2.case != r.case or (r.kind == "fail" and r2.msg != r.msg):
        raise CheckError("not reproduced: %s %s [%s]: first %s at case %d (%s), then %s at case %d (%s)" %
                         (b, config, unit, r.kind, r.case, r.msg, r2.kind, r2.case, r2.msg))
    desc = r2.desc[1] if r2.desc else "before the first case of unit '%s'" % unit
    return report(prop, r.kind, r.msg, desc, dict(config=config, bin=b, unit=unit, case=r.case, tier=tier))


def check_dynamic(prop):
    t0 = time.time()
    configs = DYNAMIC[prop]
    b = prop.lower()
    paths = build_all(configs, [b])
    log("%s: built %d configurations in %.1f s" % (prop, len(configs), time.time() - t0))
    tasks = []
    for c in configs:
        tasks += [(c, b, paths[c][b], u) for u in units(paths[c][b], c, TIER)]
    if not any(t[0] == configs[0] for t in tasks):
        raise CheckError("no units")
    res = explore(tasks, TIER)
    bad = [x for x in res if x[1].kind != "ok"]
    violations = 0
    for t, r in bad[:3]:
        violations += confirm(prop, t, r, TIER)
        if violations:
            break
    if not bad and len(res) != len(tasks):
        raise CheckError("%d of %d units ran" % (len(res), len(tasks)))
    c, per, samples = stats(res, configs[0])
    level = LEVEL.get(prop, "model_checking")
    if level == "fault_enumeration":
        cov = dict(evaluations=c["executions"], distinct_nontrivial=c["outcomes"],
                   rule="each case is one run of an operation with every answer (or panic) of its callback chosen by the explorer; distinct = distinct final arrangements of the elements, per unit, in the first build; %d runs there ended in a panic" % c["nontrivial"],
                   samples=samples)
    else:
        cov = dict(states=c["states"], transitions=c["transitions"], traces_validated_against_impl=c["executions"], samples=samples,
                   nontrivial_transitions=c["nontrivial"], distinct_outcomes=c["outcomes"],
                   note="states and transitions: the space, as explored in the first build; traces: executions of the real code, each compared with the reference model, over all builds")
    cov.update(units=c["units"], executions_per_build=per, exhaustive=not bad)
    write_evidence(prop, cov, t0, violations, level, ASSUME)
    log("%s: %d units, %d executions, %.1f s" % (prop, c["units"], c["executions"], time.time() - t0))
    return 1 if violations else 0


# ---------------------------------------------------------------- configurations (C27)

# (bins, configurations compared, tier). The first group does not depend on the features; vectors are left out where
# builds with and without the standard library are compared.
C27_GROUPS = [
    (["c27"], ["debug", "release", "debug-nostd-noptr", "release-nostd-noptr", "debug-nostd-ptr", "release-nostd-ptr", "debug-std-noptr", "release-std-noptr"], None),
    (["c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c18", "c19", "c20", "c21", "c23", "c24", "c25", "c26"], ["debug", "release"], "small"),
    (["c07", "c11", "c23", "c24", "c25", "c26"],
     ["debug", "release", "debug-nostd-ptr", "release-nostd-ptr"], "small-novec"),
]


def outcome(r):
    if r.kind == "ok":
        return ("ok", r.stat["cases"], r.stat["digest"])
    return (r.kind, r.case, re.sub(r"\S*\.rs:\d+", "", r.msg))


def first_difference(unit, tier, x, y, hi):
    """Smallest case before which the observations differ; the one before it is the culprit."""
    def dig(t, case):
        r = run_unit(t[2], t[0], tier, unit, case=case, until_desc=True)
        return r.desc
    lo = 1
    while lo < hi:
        mid = (lo + hi + 1) // 2
        a, b = dig(x, mid), dig(y, mid)
        if a is None or b is None or a[0] != b[0]:
            hi = mid - 1
        else:
            lo = mid
    d = dig(x, lo) or dig(y, lo) or ["", "case %d" % lo]
    return lo, d[1]


def c27_compare(rs):
    """rs: [(task, Result)] of one unit in several builds. None, or the two that differ."""
    for t, r in rs[1:]:
        if outcome(r) != outcome(rs[0][1]):
            return rs[0], (t, r)
    return None


def check_c27():
    prop, t0 = "C27", time.time()
    need = {}
    for bins, configs, _ in C27_GROUPS:
        for c in configs:
            need.setdefault(c, set()).update(bins)
    paths, errs, ths = {}, [], []

    def go(c):
        try:
            paths[c] = build(c, sorted(need[c]))
        except Exception as e:
            errs.append(e)
    for c in need:
        ths.append(threading.Thread(target=go, args=(c,)))
        ths[-1].start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0] if isinstance(errs[0], CheckError) else CheckError(repr(errs[0]))
    log("C27: built in %.1f s" % (time.time() - t0))
    all_res, violations, traces = [], 0, 0
    for bins, configs, tier in C27_GROUPS:
        tasks = []
        for b in bins:
            t2 = TIER if tier is None else tier.replace("small", "quick") if TIER == "thorough" else tier
            lists = [units(paths[c][b], c, t2) for c in configs]
            for c, l in zip(configs, lists):
                if set(l) != set(lists[0]):
                    raise CheckError("unit lists of %s differ between builds" % b)
            # all builds of one unit together, so that a difference shows early
            tasks += [(t2, (c, b, paths[c][b], u)) for u in lists[0] for c in configs]
        for t2 in sorted(set(x[0] for x in tasks)):
            res = explore([x[1] for x in tasks if x[0] == t2], t2, stop_on_failure=False)
            all_res += res
            by = {}
            for t, r in res:
                by.setdefault((t[1], t[3]), []).append((t, r))
            for (b, u), rs in sorted(by.items()):
                rs.sort(key=lambda x: configs.index(x[0][0]))
                d = c27_compare(rs)
                traces += len(rs)
                if not d or violations:
                    continue
                (x, rx), (y, ry) = d
                # again, to confirm
                rx2, ry2 = run_unit(x[2], x[0], t2, u), run_unit(y[2], y[0], t2, u)
                if outcome(rx2) != outcome(rx) or outcome(ry2) != outcome(ry):
                    raise CheckError("C27: outcome of %s [%s] is not reproducible" % (b, u))
                hi = min(z.case for z in (rx, ry))
                case, desc = first_difference(u, t2, x, y, max(1, hi))
                msg = "build '%s': %s; build '%s': %s" % (x[0], outcome(rx), y[0], outcome(ry))
                violations += report(prop, "difference", msg, desc, dict(bin=b, unit=u, configs=[x[0], y[0]], tier=t2, case=case))
    c = dict(states=0, transitions=0, executions=0)
    samples = []
    for t, r in sorted(all_res, key=lambda x: (x[0][1], x[0][3], x[0][0])):
        if r.kind == "ok":
            c["executions"] += r.stat["cases"]
            if t[0] in ("debug", "debug-nostd-ptr"):
                c["states"] += r.stat["states"]
                c["transitions"] += r.stat["transitions"]
            if t[0] == "debug":
                samples += r.stat["samples"][:2]
    cov = dict(states=c["states"], transitions=c["transitions"], traces_validated_against_impl=traces, executions=c["executions"],
               samples=samples[::max(1, len(samples) // 12)][:14], exhaustive=not violations,
               note="states and transitions: as explored in the debug builds; traces: complete explorations (unit x build) whose digest of all observations was compared with the same unit's in another build")
    write_evidence(prop, cov, t0, violations, "model_checking", ASSUME)
    log("C27: %d explorations, %.1f s" % (traces, time.time() - t0))
    return 1 if violations else 0


# ---------------------------------------------------------------- replay

def replay(f):
    rec = json.load(open(f))
    prop = rec["property"]
    if "program" in rec:
        import programs
        return programs.replay(rec)
    if prop == "C27":
        out = []
        for c in rec["configs"]:
            p = build(c, [rec["bin"]])[rec["bin"]]
            r = run_unit(p, c, rec["tier"], rec["unit"], case=rec["case"])
            print("build %s: %s" % (c, outcome(r)))
            out.append(outcome(r))
        print("case %d: %s" % (rec["case"], rec["case_description"]))
        return 1 if out[0] != out[1] else 0
    p = build(rec["config"], [rec["bin"]])[rec["bin"]]
    r = run_unit(p, rec["config"], rec["tier"], rec["unit"], case=rec["case"])
    print("%s at case %d: %s" % (r.kind, r.case, r.msg))
    if r.desc:
        print("case: %s" % r.desc[1])
    return 0 if r.kind == "ok" else 1


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in ("check", "replay", "setup"):
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "setup":
            build("debug", ["c01"])
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        prop = sys.argv[2]
        if prop in DYNAMIC:
            return check_dynamic(prop)
        if prop == "C27":
            return check_c27()
        import programs
        return programs.check(prop)
    except CheckError as e:
        print("ERROR: %s" % e, flush=True)
        return 2


def stopped(sig, frame):
    for p in list(live):
        kill(p)
    os._exit(2)


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, stopped)
    signal.signal(signal.SIGINT, stopped)
    sys.exit(main())
