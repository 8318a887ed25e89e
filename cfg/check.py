#!/usr/bin/env python3
"""C34: builds the driver in every configuration and compares everything observable of every execution.

Called by mc/check.sh C34. The executions are numbered (driver/src/groups.rs); a configuration runs all of them and prints
digests of blocks; the baseline is the native build with all features, debug assertions and overflow checks, and Vec buffers.
Where a digest differs, the first differing execution is searched and shown in both configurations.
"""
import concurrent.futures as cf
import json, os, re, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("VERIF_DIR", os.path.dirname(HERE))
OUT = f"{HERE}/target"
TIER = os.environ.get("VERIF_TIER", "quick")
DEEP = TIER == "thorough"
CORES = 8
START = time.time()
ID = "C34"
GROUPS = None
RUNNING, LOCK = set(), threading.Lock()  # process groups of the commands under way


class Violation(Exception):
    def __init__(self, what, replay=None, detail=""):
        super().__init__(what)
        self.replay, self.detail = replay or {}, detail


class Broken(Exception):
    """The check can not give an answer."""


def sh(cmd, cwd=HERE, env=None, timeout=3000):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    with LOCK:
        RUNNING.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, out, err)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        raise Broken(f"timeout of {' '.join(cmd)}")
    finally:
        with LOCK:
            RUNNING.discard(p.pid)


def stop_everything():
    """End what still runs, before the process itself ends."""
    LOCK.acquire()
    for pid in RUNNING:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def errors(text):
    return "\n".join(l for l in text.splitlines() if not l.startswith("warning"))[-3000:] if "\nerror" not in "\n" + text else \
        "\n".join(("\n" + text).split("\nerror", 1)[1].splitlines()[:14])


def built(what, r, others):
    """Judge a build. A library that builds in the baseline but not here breaks the property."""
    if r.returncode == 0:
        return
    lib = re.search(r"could not compile `dynamixel2`", r.stderr)
    drv = re.search(r"could not compile `(driver|bare)`", r.stderr)
    if others and (lib or drv):
        why = "the library does not build" if lib else "the library does not offer the same interface"
        raise Violation(f"{why} {what}: error{errors(r.stderr)[:600]}", {"build": what}, errors(r.stderr))
    print(errors(r.stderr)[:3000])
    raise Broken(f"BUILD FAILED {what}")


# ------------------------------------------------------------------ configurations

NATIVE = {  # name: (cargo profile, features)
    "all features, checked": ("checked", "serial2,rs4xx"),
    "no features, checked": ("checked", ""),
    "alloc, checked": ("checked", "alloc"),
    "std, checked": ("checked", "std"),
    "log, checked": ("checked", "log"),
    "all features and log, checked": ("checked", "serial2,rs4xx,log"),
    "no features, release": ("release", ""),
    "all features, release": ("release", "serial2,rs4xx"),
    "all features and log, release": ("release", "serial2,rs4xx,log"),
}
BASE = "all features, checked"
WASM = {"no features, 32-bit": "", "std, 32-bit": "std"}
MIRI = {"alloc, interpreted on a 32-bit big-endian target": ("powerpc-unknown-linux-gnu", "alloc")}
if DEEP:
    NATIVE["no features, unoptimised"] = ("dev", "")
    NATIVE["all features and log, unoptimised"] = ("dev", "serial2,rs4xx,log")
    MIRI["no features, interpreted on a 64-bit big-endian target"] = ("s390x-unknown-linux-gnu", "")
    MIRI["all features and log, interpreted on the host"] = ("x86_64-unknown-linux-gnu", "serial2,rs4xx,log")


def slug(name):
    return re.sub(r"[^a-z0-9]+", "-", name.lower())


def build_native(name, judge=True):
    profile, features = NATIVE[name]
    target = f"{OUT}/{slug(name)}"
    r = sh(["cargo", "build", "--offline", "--profile", profile, "--features", features, "--target-dir", target], f"{HERE}/driver")
    built(f"with {name}", r, judge)
    d = "debug" if profile == "dev" else profile
    return [f"{target}/{d}/driver"]


def vendored():
    root = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    d = f"{root}/lib/rustlib/src/rust/library/vendor"
    return ["--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{d}"']


def build_std(crate, features, std, target):
    return sh(["cargo", "+nightly", "build", "--offline", "--release", "--target", "wasm32-unknown-unknown", f"-Zbuild-std={std}",
               "--features", features, "--target-dir", target, *vendored()], f"{HERE}/{crate}")


def build_wasm(which):
    out = {}
    for name in which:
        r = build_std("small", WASM[name], "std,panic_abort", f"{OUT}/wasm")
        built(f"with {name}", r, True)
        path = f"{OUT}/wasm/{slug(name)}.wasm"
        os.replace(f"{OUT}/wasm/wasm32-unknown-unknown/release/driver.wasm", path)
        out[name] = ["node", f"{HERE}/run.js", path]
    return out


def build_bare():
    """Without `std` there must be nothing but core (and alloc with `alloc`)."""
    for features, std in (("", "core"), ("alloc", "core,alloc")):
        r = build_std("bare", features, std, f"{OUT}/bare")
        built(f"where only {std} exists", r, True)
    return 2


def build_miri(name):
    target, features = MIRI[name]
    env = {"XDG_CACHE_HOME": f"{OUT}/miri-{target}", "MIRIFLAGS": "-Zmiri-ignore-leaks", "CARGO_TARGET_DIR": f"{OUT}/miri-{target}/t"}
    r = sh(["cargo", "+nightly", "miri", "setup", "--target", target], f"{HERE}/driver", env)
    if r.returncode != 0:
        raise Broken(f"no interpreter for {target}: {r.stderr[-500:]}")
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", target, "--features", features, "--"]
    r = sh(cmd + ["list", "0"], f"{HERE}/driver", env)
    if "Undefined Behavior" not in r.stderr:
        built(f"with {name}", r, True)
    return cmd, env


def matrix():
    """Every set of features must build."""
    flags = ["alloc", "std", "serial2", "rs4xx", "log"]
    sets = [",".join(f for i, f in enumerate(flags) if n >> i & 1) for n in range(1 << len(flags))]

    def part(k):
        for s in sets[k::4]:
            r = sh(["cargo", "check", "-q", "--offline", "--features", s, "--target-dir", f"{OUT}/matrix{k}"], f"{HERE}/driver")
            built(f"with the features [{s}]", r, True)

    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(part, range(4)))
    return len(sets)


# ------------------------------------------------------------------ executions

def digests(cmd, level, kind, group, lo, hi, block, extra=(), env=None):
    """{start: digest}; and what was said at the end. The run may end early: then the rest is missing."""
    r = sh([*cmd, "digest", str(level), str(kind), str(group), str(lo), str(hi), str(block), *extra], f"{HERE}/driver", env)
    out, tail = {}, ""
    for l in r.stdout.splitlines():
        w = l.split()
        if len(w) == 3 and w[0].isdigit():
            out[int(w[0])] = w[2]
        else:
            tail = l
    return out, tail, r


def show(cmd, level, kind, group, index, env=None, extra=()):
    r = sh([*cmd, "show", str(level), str(kind), str(group), str(index), *extra], f"{HERE}/driver", env)
    text = r.stdout
    if r.returncode != 0:
        ub = [l for l in r.stderr.splitlines() if l.startswith("error")]
        text += f"ended with status {r.returncode}: {'; '.join(ub)[:300] or r.stderr[-300:]}\n"
    return text


def difference(a, b):
    """The first line in which two transcripts differ (the digest at the end aside)."""
    a, b = a.splitlines(), b.splitlines()
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "nothing"
        y = b[i] if i < len(b) else "nothing"
        if x != y:
            if x.startswith("= ") and y.startswith("= "):
                return None
            return x[:300], y[:300]
    return None


def report(name, run, level, kind, group, index, base):
    """Execute again in both configurations and say what differs."""
    cmd, env, extra = run
    one = show(base, level, 0, group, index)
    two = show(cmd, level, kind, group, index, env, extra)
    d = difference(one, two)
    if d is None:
        raise Broken(f"not reproduced: {name} group {group} index {index}")
    title = one.splitlines()[0][:200] if one else ""
    buffers = "" if kind == 0 else ", other buffers"
    raise Violation(
        f"{GROUPS[level][group][1]}: {title}: baseline: {d[0]}; {name}{buffers}: {d[1]}",
        {"config": name, "level": level, "kind": kind, "group": group, "index": index, "nolog": bool(extra)},
        f"--- baseline\n{one}--- {name}{buffers}\n{two}")


def compare(name, run, level, kind, group, lo, hi, want, base, block):
    """Compare the blocks lo..hi of a group with the digests of the baseline; -> number of executions compared."""
    cmd, env, extra = run
    got, _, r = digests(cmd, level, kind, group, lo, hi, block, extra, env)
    for at in range(lo, hi, block):
        if got.get(at) == want[at]:
            continue
        if at not in got:
            if "unsupported operation" in r.stderr:
                print(f"note: {name} can not interpret: {r.stderr[-300:]}")
                return at - lo
            if r.returncode == 0:
                raise Broken(f"{name}: no digest of block {at}")
            if env and "Undefined Behavior" not in r.stderr and "error: abnormal termination" not in r.stderr:
                raise Broken(f"{name}: {r.stderr[-600:]}")
        # The first execution of the block that differs; one that ends the process is the first without a digest.
        end = min(hi, at + block)
        if block > 1:
            a, _, _ = digests(base, level, 0, group, at, end, 1)
            b, _, _ = digests(cmd, level, kind, group, at, end, 1, extra, env)
            bad = [i for i in range(at, end) if a.get(i) != b.get(i)]
            if not bad:
                raise Broken(f"{name}: digest of block {at} of group {group} not reproduced")
            report(name, run, level, kind, group, bad[0], base)
        report(name, run, level, kind, group, at, base)
    return hi - lo


# ------------------------------------------------------------------ main

def chunks(n, size, block):
    size = max(block, size // block * block)
    return [(lo, min(n, lo + size)) for lo in range(0, n, size)]


def explore():
    global GROUPS
    os.makedirs(OUT, exist_ok=True)
    pool = cf.ThreadPoolExecutor(CORES)
    base = build_native(BASE, judge=False)
    GROUPS = {}
    for level in range(4):
        lines = sh([*base, "list", str(level)]).stdout.splitlines()
        GROUPS[level] = [(int(l.split(" ", 1)[0]), l.split(" ", 1)[1]) for l in lines]

    # Builds, most expensive first.
    miri = {n: pool.submit(build_miri, n) for n in MIRI}
    wasm = pool.submit(build_wasm, list(WASM))
    bare = pool.submit(build_bare)
    native = {n: pool.submit(build_native, n) for n in NATIVE if n != BASE}
    sets = pool.submit(matrix)

    stats, samples = [], []
    native_level, block = (3, 1 << 16) if DEEP else (2, 4096)
    interpreted_level = 1 if DEEP else 0

    def baseline(level, block, chunk):
        """Digests of the baseline, with the number of distinct transcripts and of the calls and results in them."""
        parts = [(g, lo, hi) for g, (n, _) in enumerate(GROUPS[level]) for lo, hi in chunks(n, chunk, block)]
        jobs = [(p, pool.submit(digests, base, level, 0, *p, block, ("count",))) for p in parts]
        want, events, distinct = {}, 0, 0
        for (g, lo, hi), j in jobs:
            got, tail, r = j.result()
            if r.returncode != 0 or set(got) != set(range(lo, hi, block)):
                one, _, r = digests(base, level, 0, g, lo, hi, 1)
                if r.returncode == 0:
                    raise Broken(f"the baseline failed in group {g}, {lo}..{hi}: {r.stderr[-400:]}")
                i = min(set(range(lo, hi)) - set(one))
                text = show(base, level, 0, g, i)
                raise Violation(f"{GROUPS[level][g][1]}: {text.splitlines()[0][:200] if text else i}: the process ends: {r.stderr.strip()[-300:]}",
                                {"config": BASE, "level": level, "kind": 0, "group": g, "index": i, "nolog": False}, text)
            want.setdefault(g, {}).update(got)
            w = tail.split()
            events, distinct = events + int(w[1]), distinct + int(w[3])
        return want, events, distinct

    chunk = 1 << 20 if DEEP else 1 << 18
    want, events, distinct = baseline(native_level, block, chunk)
    small, small_events, small_distinct = baseline(interpreted_level, 1, 4096)
    for level, g, i in ((native_level, 0, 5), (native_level, 1, 77), (native_level, 7, 33333), (interpreted_level, 5, 3)):
        samples.append(show(base, level, 0, g, i).strip().replace("\n", " / ")[:700])

    def run_all(name, run, kind, level, want, block, chunk):
        parts = [(g, lo, hi) for g, (n, _) in enumerate(GROUPS[level]) for lo, hi in chunks(n, chunk, block)]
        t = time.time()
        jobs = [pool.submit(compare, name, run, level, kind, g, lo, hi, want[g], base, block) for g, lo, hi in parts]
        return name, kind, level, t, jobs

    builds = len(NATIVE) + len(WASM) + len(MIRI) + sets.result() + bare.result()
    work = []
    log = lambda name: () if "log" in name else ()
    kinds = [1, 2, 3, 4, 5]
    for k in kinds:
        work.append(run_all(BASE, (base, None, ()), k, native_level, want, block, chunk))
    for n, f in native.items():
        for k in (["mix", 0, 4] if DEEP else ["mix"]):
            work.append(run_all(n, (f.result(), None, ()), k, native_level, want, block, chunk))
            if "log" in n:
                work.append(run_all(n, (f.result(), None, ("nolog",)), k, native_level, want, block, chunk))
    for n, cmd in wasm.result().items():
        work.append(run_all(n, (cmd, None, ()), "mix", native_level, want, block, chunk))
    for n, f in miri.items():
        cmd, env = f.result()
        size = 40 if not DEEP else 100
        work.append(run_all(n, (cmd, env, ()), "mix", interpreted_level, small, 1, size))
    total = 0
    for name, kind, level, t, jobs in work:
        n = sum(j.result() for j in jobs)
        total += n
        buffers = {"mix": "mixed", 0: "Vec", 1: "boxed", 2: "array", 3: "slice", 4: "static", 5: "window"}[kind]
        stats.append({"name": f"{name}; buffers: {buffers}", "kind": "sweep", "executions": n, "level": level})
    return {
        "states": distinct + small_distinct, "transitions": events + small_events, "traces_validated_against_impl": total,
        "builds": builds, "exhaustive": True,
        "rule": "every execution of nine finite families (operation x reply x fragmentation x buffer sizes, device instructions, received bytes, payloads, values, "
                "sizes and rates, texts, histories, checksums) runs in every configuration; its transcript (port calls with arguments, bytes and deadlines, results, texts) must equal that "
                "of the baseline. states = distinct transcripts of the baseline; transitions = port calls and results in them; traces = executions compared",
        "groups": [{"name": n, "executions": c, "interpreted": s} for (c, n), (s, _) in zip(GROUPS[native_level], GROUPS[interpreted_level])],
        "scenarios": stats, "samples": samples,
    }


def evidence(coverage, violations):
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{ID}.json", "w") as f:
        json.dump({
            "property": ID, "tier": TIER if DEEP else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
            "coverage": coverage,
            "assumptions": ["rustc, Miri and node execute the library as the respective targets would",
                            "transcripts are compared by 64-bit hashes"],
            "wall_s": round(time.time() - START, 3), "violations": violations}, f, indent=1)


def replay(path):
    global GROUPS
    d = json.loads(open(path).read().split("\n", 1)[0])
    base = build_native(BASE, judge=False)
    if "build" in d:
        build_wasm(list(WASM))
        build_bare()
        matrix()
        for n in NATIVE:
            build_native(n)
        return
    GROUPS = {l: [(0, g) for g in range(99)] for l in range(4)}
    n = d["config"]
    env = None
    if n in NATIVE:
        cmd = build_native(n)
    elif n in WASM:
        cmd = build_wasm([n])[n]
    else:
        cmd, env = build_miri(n)
    extra = ("nolog",) if d["nolog"] else ()
    one = show(base, d["level"], 0, d["group"], d["index"])
    two = show(cmd, d["level"], d["kind"], d["group"], d["index"], env, extra)
    print(f"--- baseline\n{one}--- {n}\n{two}", end="")
    if difference(one, two) or "ended with status" in one:
        raise Violation("the transcripts differ", d)


def main():
    path = f"{VERIF}/replays/{ID}.replay"
    args = sys.argv[1:]
    try:
        if args[:1] == ["--replay"]:
            path = args[1]
            replay(path)
            print("the transcripts are equal")
            code = 0
        else:
            coverage = explore()
            evidence(coverage, 0)
            print(f"{ID}: held on {coverage['traces_validated_against_impl']} executions in {time.time() - START:.1f}s")
            code = 0
    except Violation as v:
        if v.detail:
            print(v.detail[:6000])
        if args[:1] != ["--replay"]:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(json.dumps(v.replay) + "\n" + str(v) + "\n")
            evidence({"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": [str(v)[:1000]]}, 1)
        print(str(v).replace("\n", " ")[:1500])
        print(f"VIOLATION property={ID} replay={path}")
        code = 1
    except Broken as e:
        print(e, file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    stop_everything()
    os._exit(code)


main()
