#!/usr/bin/env python3
"""Decides one property by running the monitors of harness/ against /repo's working tree.

  check.py C01                 check (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py C01 --replay FILE   run the violating case of FILE again, with its trace
  check.py --setup             build everything once

Exit 0: held on everything observed. Exit 1 with "VIOLATION property=<id> replay=<path>":
violated. Exit 2: no verdict (the harness could not be built or observed nothing).
"""
import glob, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
OUT = os.path.join(HERE, "out")
TARGET = os.environ.get("RTMON_TARGET", os.path.join(HERE, "target"))
NPROC = os.cpu_count() or 4
HOST = "x86_64-unknown-linux-gnu"
T32 = "i686-unknown-linux-gnu"

# kind of run: (cargo arguments, toolchain, rustflags, sub-directory of TARGET, where the binary ends up)
BUILDS = {
    # the crate without its serde feature
    "debug": dict(args=["--no-default-features"], dir="bare", sub="debug"),
    # all others: with it
    "sdebug": dict(args=[], dir="native", sub="debug"),
    "release": dict(args=["--release"], dir="native", sub="release"),
    "plain": dict(args=["--profile", "plain"], dir="native", sub="plain"),
    "asan": dict(args=["--target", HOST], dir="asan", sub=HOST + "/debug", nightly=True, flags="-Zsanitizer=address"),
    # the standard library is rebuilt as well, or ThreadSanitizer would not see its synchronisation
    "tsan": dict(args=["-Zbuild-std", "--target", HOST], dir="tsan", sub=HOST + "/debug", nightly=True, flags="-Zsanitizer=thread"),
    # a 32-bit target at full speed: only the shared libraries of a 32-bit system are there, so the
    # standard library is rebuilt and start code and link names are supplied (see link32)
    "n32": dict(args=["-Zbuild-std", "--target", T32], dir="n32", sub=T32 + "/debug", nightly=True, flags=None),
    "miri64": dict(args=["--target", HOST], dir="miri", miri=True, target=HOST),
    "miri32": dict(args=["--target", T32], dir="miri", miri=True, target=T32),
}

# Per property: monitor runs (binary, monitor, build, quick cases, thorough seconds, seed offset).
# Different seed offsets give the builds different cases; monitors with enumerated cases share them.
def both(binary, prop, cases, secs=150, same=False, debug="debug"):
    return [(binary, prop, debug, cases, secs, 0), (binary, prop, "release", cases, secs, 0 if same else 1)]

PLANS = {
    "C01": both("alg", "C01", 4_000_000),
    "C02": both("alg", "C02", 4_000_000),
    "C03": both("alg", "C03", 3_000_000),
    "C04": both("alg", "C04", 4_000_000),
    "C05": both("alg", "C05", 4_000_000),
    "C06": both("alg", "C06", 500_000, debug="sdebug"),
    "C07": both("alg", "C07", 500_000),
    "C08": both("it", "C08", 5_000_000) + [("it", "C08", "n32", 1_500_000, 60, 2)],
    "C09": both("it", "C09", 6_000_000) + [("it", "C09", "n32", 2_000_000, 60, 2)],
    "C10": both("it", "C10", 6_000_000) + [("it", "C10", "n32", 4_000_000, 120, 2)],
    "C11": both("it", "C11", 6_000_000) + [("it", "C11", "n32", 2_000_000, 60, 2)],
    "C12": both("misc", "C12", 90_000, same=True) + [("misc", "C12", "n32", 90_000, 120, 0)],
    "C13": both("misc", "C13", 800_000),
    "C14": both("misc", "C14", 3_000_000),
    "C15": both("misc", "C15", 2_500_000),
    "C16": both("alg", "C16", 500_000, debug="sdebug"),
    "C17": both("alg", "C17a", 4_000_000, 60) + both("it", "C17i", 4_000_000, 60)
           + [("alg", "C17a", "plain", 200_000, 60, 2), ("it", "C17i", "n32", 0, 60, 2), ("big", "C17b", "plain", 26, 120, 0), ("big", "C17b", "release", 26, 120, 0)],
    "C18": both("alg", "C18", 900_000),
    "C19": [("ub", "C19", "debug", 300_000, 90, 0), ("ub", "C19", "release", 300_000, 60, 1),
            ("ub", "C19", "asan", 100_000, 90, 2), ("ub", "C19", "miri64", 640, 300, 3), ("ub", "C19", "miri32", 480, 300, 4)],
    "C21": both("alg", "C21", 2_000_000),
    "C22": [("thr", "C22", "debug", 100_000, 90, 0), ("thr", "C22", "release", 100_000, 90, 1),
            ("thr", "C22", "tsan", 30_000, 150, 2), ("thr", "C22", "miri64", 320, 300, 3)],
    "C24": both("iso", "C24", 800_000),
    # the same cases in every build
    "C23": [("conf", "C23", b, 2_000_000, 60, 0) for b in ("debug", "sdebug", "release", "plain", "n32")]
           + [("conf", "C23", "miri64", 256, 300, 0)],
}
# where 32-bit programs cannot be linked or run: cases under Miri instead
WITHOUT_N32 = {"C10": 160, "C12": 480, "C23": 512}
# their recorded outcomes are compared between the builds
COMPARED = {"C23": 16}
QUICK_SECS = 560
# first case of the interpreted runs (skips the exhaustive part of C12, far too long for Miri)
MIRI_FIRST = {"C12": 5370}
ASSUME = [
    "what is reported held on the executions produced in this run, nothing more",
    "the reference model (interval lists between cuts, 128-bit ranks) is right",
]


def say(*a):
    print(*a, flush=True)


def cargo_env(b):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, b["dir"])
    if b.get("flags"):
        e["RUSTFLAGS"] = b["flags"]
    return e


def forget(b):
    """Makes cargo rebuild the crate under test: its own check of freshness trusts time stamps."""
    d = os.path.join(TARGET, b["dir"])
    for f in glob.glob(os.path.join(d, "**", ".fingerprint", "rangetools-*"), recursive=True):
        shutil.rmtree(f, ignore_errors=True)


def link32():
    """Prepares linking for the 32-bit target; False if the result cannot be run here."""
    d = os.path.join(TARGET, "link32")
    os.makedirs(d, exist_ok=True)
    for l in ("c", "gcc_s", "m", "rt", "pthread", "dl", "util"):
        f = sorted(glob.glob(f"/usr/lib32/lib{l}.so.*") + glob.glob(f"/lib/i386-linux-gnu/lib{l}.so.*"))
        if f and not os.path.lexists(os.path.join(d, f"lib{l}.so")):
            os.symlink(f[0], os.path.join(d, f"lib{l}.so"))
    start, probe = os.path.join(d, "start.o"), os.path.join(d, "probe")
    with open(probe + ".c", "w") as f:
        f.write("int main(void) { return sizeof(void *) == 4 ? 32 : 1; }\n")
    try:
        for cmd in (["gcc", "-m32", "-c", os.path.join(HARNESS, "start32.S"), "-o", start],
                    ["gcc", "-m32", "-nostartfiles", "-nodefaultlibs", start, probe + ".c", "-L" + d, "-lc", "-lgcc_s", "-o", probe]):
            subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = subprocess.run([probe]).returncode == 32
    except (OSError, subprocess.CalledProcessError):
        return False
    BUILDS["n32"]["flags"] = f"-Clink-arg=-nostartfiles -Clink-arg={start} -Clink-arg=-L{d}"
    return ok


class NotShared(Exception):
    """The crate's values can no longer be sent to, or shared by, threads."""


class NotInAll(Exception):
    """The crate builds in one configuration and not in another."""


class No32(Exception):
    """Everything builds for the host, but not for a 32-bit target."""


def build(kinds, bins):
    """Builds the given binaries in the given builds; returns an error text or None."""
    dirs = {}
    for k in kinds:
        dirs.setdefault(BUILDS[k]["dir"], []).append(k)
    for d in dirs:
        forget(BUILDS[dirs[d][0]])
    for k in kinds:
        b = BUILDS[k]
        cmd = ["cargo"]
        if b.get("nightly") or b.get("miri"):
            cmd.append("+nightly")
        if b.get("miri"):
            cmd += ["miri", "run", "--offline", "--locked", "--quiet", *b["args"], "--bin", bins[k][0], "--", "nothing"]
        else:
            cmd += ["build", "--offline", "--locked", "--quiet", *b["args"]]
            for x in bins[k]:
                cmd += ["--bin", x]
        r = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0 and not (b.get("miri") and "usage: run|replay" in r.stdout):
            text = f"build {k} failed: {' '.join(cmd)}\n{r.stdout[-6000:]}"
            if k != kinds[0] and "conf" in bins[k] and "could not compile `rangetools`" in r.stdout:
                raise NotInAll(text)
            if k in ("n32", "miri32") and k != kinds[0] and "could not compile `" in r.stdout and "linking with" not in r.stdout:
                raise No32(text)
            if bins[k] == ["thr"] and re.search(r"cannot be (sent|shared) between threads safely", r.stdout):
                raise NotShared(text)
            return text
    return None


def limits(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def command(build_name, binary):
    b = BUILDS[build_name]
    if b.get("miri"):
        return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", *b["args"], "--bin", binary, "--"]
    return [os.path.join(TARGET, b["dir"], b["sub"], binary)]


def run_env(b, schedule=None):
    e = cargo_env(b)
    e["ASAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:report_signal_unsafe=0"
    e["RUST_BACKTRACE"] = "0"
    if schedule is not None:
        # other schedules for other seeds, and more switches between threads than by default
        e["MIRIFLAGS"] = f"-Zmiri-seed={schedule} -Zmiri-preemption-rate=0.05"
    return e


def execute(cmd, b, timeout, gb):
    """(return code or None on timeout, output)"""
    with tempfile.TemporaryFile() as so:
        p = subprocess.Popen(cmd, cwd=HARNESS, env=run_env(b), stdout=so, stderr=subprocess.STDOUT, preexec_fn=limits(gb))
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        so.seek(0, 2)
        n = so.tell()
        so.seek(max(0, n - 400_000))
        return rc, so.read().decode("utf-8", "replace")


DETECTORS = [
    ("Miri", r"error: Undefined Behavior: .*"),
    ("AddressSanitizer", r"ERROR: AddressSanitizer: .*"),
    ("ThreadSanitizer", r"WARNING: ThreadSanitizer: .*"),
    ("LeakSanitizer", r"ERROR: LeakSanitizer: .*"),
    ("unsafe precondition check", r".*unsafe precondition\(s\) violated.*"),
    ("stack overflow", r".*has overflowed its stack.*"),
    ("allocation failure", r"memory allocation of \d+ bytes failed.*"),
]


def report_of(text):
    for name, pat in DETECTORS:
        m = re.search(pat, text)
        if m:
            return name, m.group(0)
    return None


# detectors that reserve address space
UNLIMITED = ("asan", "tsan", "miri64", "miri32")


class Violation(Exception):
    def __init__(self, run, case, message, trace):
        self.run, self.case, self.message, self.trace = run, case, message, trace


class NoVerdict(Exception):
    pass


def replay_cmd(run, seed, depth, case):
    binary, mon, bname = run[0], run[1], run[2]
    # under Miri a replay is a run of one case
    if BUILDS[bname].get("miri"):
        return command(bname, binary) + ["run", mon, "--seed", str(seed), "--depth", str(depth), "--first", str(case), "--cases", "1"]
    return command(bname, binary) + ["replay", mon, "--seed", str(seed), "--depth", str(depth), "--case", str(case)]


def confirm(prop, run, seed, depth, case):
    """Runs one suspected case again by itself; (message, trace) if it is violated again."""
    b = BUILDS[run[2]]
    rc, text = execute(replay_cmd(run, seed, depth, case), b, 300 if b.get("miri") else 150, 0 if run[2] in UNLIMITED else 12)
    lines = text.splitlines()
    rep = report_of(text)
    tail = [l for l in lines if not l.startswith("CASE ")][-200:]
    if prop == "C19" and not rep:
        m = next((l for l in lines if l.startswith("BROKEN ")), None)
        return (m[7:], tail) if rc == 1 and m else None
    if rep:
        return f"{rep[0]}: {rep[1]}", tail
    if rc == 1:
        m = next((l for l in lines if l.startswith("BROKEN ")), None)
        if m:
            return m[7:], tail
        m = re.search(r"^RESULT (\{.*\})$", text, re.M)
        if m and json.loads(m.group(1))["violation"]:
            return json.loads(m.group(1))["violation"]["message"], tail
    if rc is None:
        return "the case does not return (150 s, all others take milliseconds)", tail
    if rc < 0:
        return f"the process is killed by signal {-rc}", tail
    return None


def native(prop, run, tier, seed, scratch, room):
    binary, mon, bname, cases, secs, off = run
    b = BUILDS[bname]
    depth = 1 if tier == "thorough" else 0
    s = seed + 1_000_003 * off
    slots = os.path.join(scratch, f"{mon}-{bname}")
    os.makedirs(slots, exist_ok=True)
    res = os.path.join(slots, "result.json")
    gb = 0 if bname in UNLIMITED else 20
    cmd = command(bname, binary) + ["run", mon, "--seed", str(s), "--depth", str(depth), "--out", res, "--slots", slots, "--threads", str(NPROC), "--hang-secs", "60", "--mem-gb", str(gb)]
    if tier == "quick":
        cmd += ["--cases", str(cases), "--secs", str(int(min(150, max(8, room))))]
    else:
        cmd += ["--secs", str(secs)]
    limit = 300 if tier == "quick" else secs + 400
    rc, text = execute(cmd, b, limit, gb)
    if rc in (0, 1) and os.path.exists(res):
        r = json.load(open(res))
        if rc == 1:
            v = r["violation"]
            again = confirm(prop, run, s, depth, v["case"])
            # The monitors are deterministic: what they saw happened, even where it takes the
            # cases before it to happen again.
            note = "" if again else " (not when run alone: it depends on what ran before)"
            raise Violation((run, s, depth), v["case"], v["message"] + note, v["trace"])
        r["seed"] = s
        return r
    # crashed, hung, or was ended: which case was it?
    cand = []
    m = re.search(r"^HANG (\d+)$", text, re.M)
    if m:
        cand.append(int(m.group(1)))
    else:
        for f in sorted(glob.glob(os.path.join(slots, "slot-*"))):
            x = open(f, "rb").read(8)
            if len(x) == 8 and struct.unpack("<Q", x)[0]:
                cand.append(struct.unpack("<Q", x)[0] - 1)
    for c in cand:
        again = confirm(prop, run, s, depth, c)
        if again:
            raise Violation((run, s, depth), c, again[0], again[1])
    rep = report_of(text)
    if rep and rep[0] != "allocation failure" and cand:
        # no case does it alone: the same sequence of cases once more
        rc2, text2 = execute(cmd, b, limit, gb)
        rep2 = report_of(text2)
        if rep2 and rep2[0] == rep[0]:
            raise Violation((run, s, depth), cand[0], f"{rep[0]}: {rep[1]} (not in any case run alone: it depends on what ran before)", text2[-6000:].splitlines())
    raise NoVerdict(f"{mon} ({bname}) ended with {rc}, no case reproduces it: {text[-1500:]}")


def interpreted(prop, run, tier, seed, room):
    """Shards of one monitor under Miri, side by side."""
    binary, mon, bname, cases, secs, off = run
    b = BUILDS[bname]
    s = seed + 1_000_003 * off
    total = cases if tier == "quick" else cases * 6
    per = (total + NPROC - 1) // NPROC
    n = COMPARED.get(mon, 1)
    per = (per + n - 1) // n * n
    first0 = MIRI_FIRST.get(mon, 0)
    procs = []
    for i in range(NPROC):
        cmd = command(bname, binary) + ["run", mon, "--seed", str(s), "--depth", "0", "--first", str(first0 + i * per), "--cases", str(per), "--secs", "100000"]
        f = tempfile.TemporaryFile()
        procs.append((subprocess.Popen(cmd, cwd=HARNESS, env=run_env(b, s + i if binary == "thr" else None), stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(0)), f))
    end = time.time() + (max(120, min(500, room)) if tier == "quick" else 2400)
    texts = []
    late = False
    for p, f in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        f.seek(0)
        texts.append((p.returncode, f.read().decode("utf-8", "replace")))
    runs = []
    for rc, text in texts:
        rep = report_of(text)
        m = re.search(r"^RESULT (\{.*\})$", text, re.M)
        r = json.loads(m.group(1)) if m else None
        c = [int(x) for x in re.findall(r"^CASE (\d+)$", text, re.M)]
        if rep:
            i = text.find(rep[1])
            raise Violation((run, s, 0), c[-1] if c else first0, f"{rep[0]}: {rep[1]}", text[i:i + 6000].splitlines())
        if r and r["violation"]:
            raise Violation((run, s, 0), r["violation"]["case"], r["violation"]["message"], r["violation"]["trace"])
        if r:
            runs.append(r)
        elif not late:
            raise NoVerdict(f"{mon} under {bname} ended with {rc}: {text[-1500:]}")
    if not runs:
        raise NoVerdict(f"{mon} under {bname}: no shard finished in time")
    t = dict(runs[0])
    t["labels"] = dict(t["labels"])
    for r in runs[1:]:
        for k in ("cases", "skipped", "events", "calls", "nontrivial", "distinct_nontrivial"):
            t[k] += r[k]
        for k, v in r["labels"].items():
            t["labels"][k] = t["labels"].get(k, 0) + v
        t["outcomes"] = {**t["outcomes"], **r["outcomes"]}
        t["wall_s"] = max(t["wall_s"], r["wall_s"])
    t["seed"] = s
    t["shards"] = len(runs)
    return t


def outcome_alone(run, s, case):
    """(record of one case run alone, its outcomes with the operations before them)"""
    b = BUILDS[run[2]]
    gb = 0 if run[2] in UNLIMITED else 12
    opts = [run[1], "--seed", str(s), "--depth", "0"]
    rc, text = execute(command(run[2], run[0]) + ["run"] + opts + ["--first", str(case), "--cases", "1"], b, 300, gb)
    m = re.search(r"^RESULT (\{.*\})$", text, re.M)
    r = json.loads(m.group(1))["outcomes"] if m else f"no result, ended with {rc}"
    _, text = execute(command(run[2], run[0]) + ["replay"] + opts + ["--case", str(case)], b, 300, gb)
    return r, [l for l in text.splitlines() if l.startswith(("  ", "OUT "))]


def compare(plan, runs):
    """Same calls, same outcomes: the records of all builds against those of the first."""
    whole = f"{COMPARED[runs[0]['property']]}-"
    seen = 0
    for run, r in list(zip(plan, runs))[1:]:
        a, b = runs[0]["outcomes"], r["outcomes"]
        blocks = [k for k in b if k in a and a[k].startswith(whole) and b[k].startswith(whole)]
        r["compared_blocks"] = len(blocks)
        seen += len(blocks)
        bad = sorted((int(k) for k in blocks if a[k] != b[k]))
        if not bad:
            continue
        n = int(whole[:-1])
        for case in range(bad[0] * n, bad[0] * n + n):
            (x, xs), (y, ys) = outcome_alone(plan[0], r["seed"], case), outcome_alone(run, r["seed"], case)
            if x != y:
                i = next((i for i, (p, q) in enumerate(zip(xs, ys)) if p != q), min(len(xs), len(ys)))
                trace = xs[max(0, i - 30):i] + [f"{plan[0][2]}: {l}" for l in xs[i:i + 1]] + [f"{run[2]}: {l}" for l in ys[i:i + 1]]
                raise Violation((run, r["seed"], 0), case, f"the same calls have other outcomes in build {run[2]} than in build {plan[0][2]} (recorded outcome {i} of the case; {len(bad)} of {len(blocks)} records differ)", trace)
        raise Violation((run, r["seed"], 0), bad[0] * n, f"the same calls had other outcomes in build {run[2]} than in build {plan[0][2]} ({len(bad)} of {len(blocks)} records of {n} cases differ; not when run alone: it depends on what ran before)", [])
    if not seen:
        raise NoVerdict("nothing to compare")


def write_evidence(prop, tier, seed, runs, t0, violations, note=None):
    level = "exploration"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": sum(r["cases"] for r in runs),
            # runs of the same monitor share most of their case space: count the largest, not the sum
            "distinct_nontrivial": sum(max(r["distinct_nontrivial"] for r in runs if r["property"] == m) for m in {r["property"] for r in runs}),
            "observations": sum(r["events"] for r in runs),
            "calls_into_the_crate": sum(r["calls"] for r in runs),
            "nontrivial": sum(r["nontrivial"] for r in runs),
            "skipped": sum(r["skipped"] for r in runs),
            "rule": " || ".join(dict.fromkeys(r["rule"] for r in runs)),
            "samples": [s for r in runs for s in r["samples"]][:12],
            "runs": [{k: r.get(k) for k in ("property", "run", "build", "seed", "shards", "cases", "skipped", "skip_example", "events", "calls", "nontrivial", "distinct_nontrivial", "labels", "compared_blocks", "wall_s")} for r in runs],
            "exhaustive": False,
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    if note:
        ev["coverage"]["note"] = note
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def not_built(prop, tier, seed, plan, t0, text, name, note, what):
    """A build failure that is itself the violation."""
    path = os.path.join(OUT, f"{prop}-{name}.json")
    os.makedirs(OUT, exist_ok=True)
    json.dump({"property": prop, "run": plan[-1], "build_failure": text}, open(path, "w"), indent=1)
    r = dict(property=prop, run=f"{prop} build", build=plan[-1][2], cases=1, skipped=0, skip_example="", events=1, calls=1, nontrivial=1, distinct_nontrivial=1, labels={}, rule="stopped at the build", samples=[text[-500:]], wall_s=0.0)
    write_evidence(prop, tier, seed, [r], t0, 1, note)
    say(f"{prop} violated: {what}")
    say(f"VIOLATION property={prop} replay={path}")
    return 1


def check(prop, tier, seed):
    t0 = time.time()
    # 0 quick cases: thorough only
    plan = [r for r in PLANS[prop] if r[3] or tier == "thorough"]
    if any(r[2] == "n32" for r in plan) and not link32():
        say(f"{prop}: no 32-bit programs here, using the interpreter")
        plan = [r if r[2] != "n32" else (r[0], r[1], "miri32", WITHOUT_N32[prop], 300, 2 if prop != "C23" else 0) for r in plan if r[2] != "n32" or prop in WITHOUT_N32]
    kinds, bins = [], {}
    for r in plan:
        if r[2] not in kinds:
            kinds.append(r[2])
        bins.setdefault(r[2], [])
        if r[0] not in bins[r[2]]:
            bins[r[2]].append(r[0])
    try:
        err = build(kinds, bins)
    except NotShared as e:
        say(str(e))
        return not_built(prop, tier, seed, plan, t0, str(e), "thr-build", "the harness's threads cannot share the crate's values", "the crate's values or iterators can no longer be used by several threads")
    except NotInAll as e:
        say(str(e))
        return not_built(prop, tier, seed, plan, t0, str(e), "build", "the crate builds in one configuration and not in another", "the crate does not exist in every configuration")
    except No32 as e:
        say(str(e))
        if prop == "C12":
            return not_built(prop, tier, seed, plan, t0, str(e), "32bit-build", "builds for the 64-bit host but not for a 32-bit target", "the crate's Step implementations do not exist for a 32-bit target")
        say(f"{prop}: going on without the 32-bit run (what exists on 32-bit targets is C12's subject)")
        plan = [r for r in plan if r[2] not in ("n32", "miri32")]
        kinds = [k for k in kinds if k not in ("n32", "miri32")]
        err = build(kinds, bins)
    if err:
        say(err)
        say(f"NO VERDICT for {prop}: the harness does not build against /repo")
        return 2
    say(f"{prop}: built {', '.join(kinds)} in {time.time() - t0:.0f} s")
    runs = []
    scratch = tempfile.mkdtemp(prefix="rtmon-")
    try:
        for i, run in enumerate(plan):
            # a quick check keeps well within its 900 s even where the code has become slow
            reserve = sum(120 if BUILDS[x[2]].get("miri") else 12 for x in plan[i + 1:])
            room = t0 + QUICK_SECS - time.time() - reserve
            if BUILDS[run[2]].get("miri"):
                r = interpreted(prop, run, tier, seed, room)
            else:
                r = native(prop, run, tier, seed, scratch, room)
            r["run"] = f"{run[1]} {run[2]}"
            runs.append(r)
            say(f"{prop}: {run[1]} ({run[2]}): {r['cases']} cases, {r['events']} observations, {r['distinct_nontrivial']} distinct non-trivial, {r['skipped']} skipped, {r['wall_s']:.1f} s")
            if r["events"] == 0 or r["nontrivial"] == 0:
                raise NoVerdict(f"{run[1]} ({run[2]}) observed nothing: {r['skip_example']}")
        if prop in COMPARED:
            compare(plan, runs)
            say(f"{prop}: outcomes of {' '.join(str(r.get('compared_blocks', '')) for r in runs).strip()} blocks of {COMPARED[prop]} cases agree between the builds")
    except Violation as v:
        (run, s, depth) = v.run
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{prop}-{run[2]}-{seed}-{v.case}.json")
        json.dump({"property": prop, "run": run, "seed": s, "depth": depth, "case": v.case, "message": v.message, "trace": v.trace,
                   "how": f"python3 check.py {prop} --replay {path}"}, open(path, "w"), indent=1)
        if not runs:
            runs = [dict(property=run[1], run=f"{run[1]} {run[2]}", build=run[2], cases=v.case + 1 if run[2][:4] != "miri" else 1, skipped=0, skip_example="", events=1, calls=1, nontrivial=1, distinct_nontrivial=1, labels={}, rule="stopped at the first violation", samples=[{"case": v.case, "message": v.message}], wall_s=0.0)]
        write_evidence(prop, tier, seed, runs, t0, 1, f"violated in {run[1]} ({run[2]}), case {v.case}: {v.message[:500]}")
        say(f"{prop} violated ({run[1]}, {run[2]} build, case {v.case}): {v.message[:1500]}")
        for l in v.trace[:40]:
            say("   ", l[:400])
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    except NoVerdict as e:
        say(f"NO VERDICT for {prop}: {e}")
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    write_evidence(prop, tier, seed, runs, t0, 0)
    say(f"{prop} held on {sum(r['cases'] for r in runs)} cases, {sum(r['events'] for r in runs)} observations ({time.time() - t0:.0f} s)")
    return 0


def replay(prop, path):
    d = json.load(open(path))
    run = tuple(d["run"])
    if "build_failure" in d or prop in COMPARED:
        return check(prop, "quick", 1 if "build_failure" in d else d["seed"])
    if run[2] == "n32":
        link32()
    err = build([run[2]], {run[2]: [run[0]]})
    if err:
        say(err)
        return 2
    r = confirm(prop, run, d["seed"], d["depth"], d["case"])
    if r:
        for l in r[1]:
            say(l[:2000])
        say(f"BROKEN {r[0]}")
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    if prop == "C22" or "depends on what ran before" in d["message"]:
        say("the case holds this time; once more with what ran before it")
        return check(prop, "quick", int(re.search(r"-(\d+)-\d+\.json$", path).group(1)))
    say("the case holds")
    return 0


def setup():
    bins = {"debug": ["alg", "it", "misc", "ub", "thr", "conf", "iso"], "sdebug": ["alg", "conf"], "release": ["alg", "it", "misc", "big", "ub", "thr", "conf", "iso"], "plain": ["alg", "big", "conf"], "asan": ["ub"], "tsan": ["thr"], "miri64": ["ub"], "miri32": ["ub"]}
    if link32():
        bins["n32"] = ["it", "misc", "conf"]
    err = build(list(bins), bins)
    if err:
        say(err)
        return 1
    say("built")
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        return setup()
    prop = a[0]
    if prop not in PLANS:
        say(f"unknown property {prop}")
        return 3
    if len(a) == 3 and a[1] == "--replay":
        return replay(prop, a[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = abs(int(os.environ.get("VERIF_SEED", "1"))) % (1 << 62)
    except ValueError:
        seed = 1
    return check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
