#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo's working tree, runs its
workloads with monitors attached, and reports what they saw.

    check.py C07                 (VERIF_TIER, VERIF_SEED from the environment)
    check.py --replay FILE       runs a recorded violation again

Exit 0: held on everything explored. 1: a VIOLATION line was printed. 2: no answer."""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from rules import RULES  # noqa: E402

MON = os.path.join(HERE, "mon")
BUILD = os.path.join(HERE, ".build")
TARGET = "x86_64-unknown-linux-gnu"
TICKS = os.sysconf("SC_CLK_TCK")
GB = 1 << 30
CASE_CPU = 25          # CPU seconds one case may take in the debug build
CASE_IDLE = 60         # seconds all threads of one case may sleep at a stretch


class NoAnswer(Exception):
    pass


def log(msg):
    print(f"[{time.time() - START:6.1f}s] {msg}", flush=True)


START = time.time()


# ---------------------------------------------------------------- building

KINDS = {
    # name: (toolchain, RUSTFLAGS, extra cargo arguments, slow-down allowed)
    "debug": (None, "", [], 1),
    "release": (None, "", ["--release"], 1),
    "asan": ("+nightly", "-Zsanitizer=address", ["--target", TARGET], 4),
    "tsan": ("+nightly", "-Zsanitizer=thread", ["--target", TARGET, "-Zbuild-std"], 12),
}


# Each build works on cases of its own.
FROM = {"debug": 0, "release": 10**12, "asan": 2 * 10**12, "tsan": 3 * 10**12}


def cargo_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del env[k]
    env.pop("RUSTFLAGS", None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build(kind):
    tool, flags, extra, _ = KINDS[kind]
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, kind)
    if flags:
        env["RUSTFLAGS"] = flags
    cmd = ["cargo"] + ([tool] if tool else []) + ["build", "--offline", "--locked"] + extra
    t = time.time()
    p = subprocess.run(cmd, cwd=MON, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise NoAnswer(f"the {kind} build failed")
    log(f"built the harness ({kind}) in {time.time() - t:.1f} s")
    sub = "release" if "--release" in extra else "debug"
    parts = [BUILD, kind] + ([TARGET] if "--target" in extra else []) + [sub, "mon"]
    return os.path.join(*parts)


# ---------------------------------------------------------------- running

def run_env(kind):
    env = dict(os.environ)
    env["MALLOC_ARENA_MAX"] = "4"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_abort=0:max_allocation_size_mb=6000"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1"
    env.pop("MON_SHOW_PANICS", None)
    return env


def limits(kind, mem):
    def apply():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if kind not in ("asan", "tsan"):
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return apply


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            rest = f.read().rsplit(")", 1)[1].split()
        return (int(rest[11]) + int(rest[12])) / TICKS
    except (OSError, IndexError, ValueError):
        return None


def asleep(pid):
    """All threads wait for something that is neither the CPU nor a device."""
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/stat") as f:
                if f.read().rsplit(")", 1)[1].split()[0] != "S":
                    return False
        return True
    except (OSError, IndexError):
        return False


def rss_of(pid):
    try:
        with open(f"/proc/{pid}/statm") as f:
            return int(f.read().split()[1]) * 4096
    except (OSError, IndexError, ValueError):
        return 0


def reap(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()
    p.wait()


class Shard:
    def __init__(self, binary, kind, prop, ctx, i, n, count, secs, scale, mem):
        self.i, self.kind = i, kind
        base = os.path.join(ctx.dir, f"{prop}-{kind}-{i}")
        self.out, self.status, self.err = base + ".json", base + ".status", base + ".err"
        args = [binary, "worker", prop, "--seed", str(ctx.seed), "--tier", ctx.tier, "--from", str(FROM[kind]), "--shard", str(i), "--shards", str(n),
                "--count", str(count), "--secs", str(secs), "--status", self.status, "--out", self.out, "--scale", str(scale)]
        self.p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), env=run_env(kind),
                                  cwd=ctx.dir, preexec_fn=limits(kind, mem), start_new_session=True)
        self.idx, self.cpu0, self.cpu, self.rests = None, 0.0, 0.0, 0
        self.hung, self.idle = None, False

    def case(self):
        try:
            with open(self.status, "rb") as f:
                b = f.read(8)
            return struct.unpack("<Q", b)[0] if len(b) == 8 else None
        except OSError:
            return None

    def poll(self, slow):
        if self.p.poll() is not None:
            return True
        idx, cpu = self.case(), cpu_of(self.p.pid)
        if cpu is None:
            return False
        if idx != self.idx:
            self.idx, self.cpu0, self.cpu, self.rests = idx, cpu, cpu, 0
        elif cpu - self.cpu0 > CASE_CPU * slow:
            self.hung = f"case {idx} used {cpu - self.cpu0:.0f} s of CPU without ending"
        elif cpu - self.cpu > 0.05 or not asleep(self.p.pid):
            self.cpu, self.rests = cpu, 0
        else:
            # Polls are counted, not seconds: this process must have run as well.
            self.rests += 1
            if self.rests > CASE_IDLE * 10:
                self.hung, self.idle = f"in case {idx} all threads sleep and none wakes another", True
        if self.hung:
            reap(self.p)
            return True
        return False

    def stderr(self):
        with open(self.err, errors="replace") as f:
            return f.read()


class Ctx:
    def __init__(self, prop, tier, seed, d):
        self.prop, self.tier, self.seed, self.dir = prop, tier, seed, d
        self.cases = self.nontrivial = 0
        self.counters, self.sigs, self.samples, self.stages = {}, set(), [], []
        self.violations = []
        self.exhaustive = False


def one_case(binary, kind, ctx, prop, idx, scale, mem, cpu_limit):
    """Runs one case alone. (exit status or None if it did not end, stdout, stderr)"""
    args = [binary, "case", prop, "--seed", str(ctx.seed), "--tier", ctx.tier, "--idx", str(idx), "--scale", str(scale)]
    with open(os.path.join(ctx.dir, "case.out"), "w+b") as out, open(os.path.join(ctx.dir, "case.err"), "w+b") as err:
        p = subprocess.Popen(args, stdout=out, stderr=err, env=run_env(kind), cwd=ctx.dir, preexec_fn=limits(kind, mem), start_new_session=True)
        last, rests = 0.0, 0
        ended = True
        while p.poll() is None:
            time.sleep(0.05)
            cpu = cpu_of(p.pid) or last
            if cpu - last > 0.05 or not asleep(p.pid):
                last, rests = cpu, 0
            rests += 1
            if cpu > cpu_limit or rests > CASE_IDLE * 20:
                reap(p)
                ended = False
                break
        out.seek(0)
        err.seek(0)
        so, se = out.read().decode(errors="replace"), err.read().decode(errors="replace")
    return (p.returncode if ended else None), so, se


def signal_name(rc):
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return str(rc)


def sanitizer_report(text):
    m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|FATAL: ThreadSanitizer|ThreadSanitizer:DEADLYSIGNAL).*", text, re.S)
    return text[m.start():m.start() + 8000] if m else None


def stage(ctx, binary, kind, prop, secs, count=10**11, shards=8, scale=1, mem=4 * GB):
    """Runs the workload of `prop` in shards; gathers what the monitors observed."""
    slow = KINDS[kind][3]
    t = time.time()
    running = [Shard(binary, kind, prop, ctx, i, shards, count, secs, scale, mem) for i in range(shards)]
    todo = list(running)
    deadline = t + secs + 600
    while todo:
        time.sleep(0.1)
        todo = [s for s in todo if not s.poll(slow)]
        # One shard's verdict is enough.
        if any(s.p.returncode not in (None, 0) for s in running) and todo:
            wait_until = time.time() + 3
            while todo and time.time() < wait_until:
                time.sleep(0.1)
                todo = [s for s in todo if not s.poll(slow)]
            for s in todo:
                reap(s.p)
                s.hung = s.hung or "stopped"
            todo = []
        if time.time() > deadline:
            for s in todo:
                reap(s.p)
            raise NoAnswer("the run did not come to an end")
    cases = 0
    for s in running:
        rc, text = s.p.returncode, s.stderr()
        if s.hung == "stopped":
            continue
        report = sanitizer_report(text)
        if s.hung:
            idx = s.case()
            if s.idle:
                ctx.violations.append(dict(kind=kind, case=idx, scale=scale, prop=prop, message=f"does not come to an end: {s.hung}", trace=""))
                continue
            log(f"{s.hung}; trying it alone")
            rc1, so, se = one_case(binary, kind, ctx, prop, idx, scale, mem, 2 * CASE_CPU * slow)
            if rc1 is None:
                ctx.violations.append(dict(kind=kind, case=idx, scale=scale, prop=prop, message=f"does not come to an end: {s.hung}, nor alone", trace=so[:20000]))
            else:
                raise NoAnswer(f"{s.hung}, but alone it ended")
            continue
        if report:
            idx = s.case()
            ctx.violations.append(dict(kind=kind, case=idx, scale=scale, prop=prop, message=report, trace=""))
            continue
        if rc < 0:
            idx = s.case()
            if -rc == signal.SIGKILL:
                raise NoAnswer("a worker was killed from outside (out of memory?)")
            log(f"worker {s.i} died of {signal_name(rc)} in case {idx}; trying it alone")
            tries = 6 if prop in ("C28", "C29") else 2
            for _ in range(tries):
                rc1, so, se = one_case(binary, kind, ctx, prop, idx, scale, mem, 2 * CASE_CPU * slow)
                if rc1 is not None and rc1 < 0 and -rc1 != signal.SIGKILL:
                    ctx.violations.append(dict(kind=kind, case=idx, scale=scale, prop=prop, trace=so[:20000],
                                               message=f"the process dies of {signal_name(rc1)}: {se[-3000:]}"))
                    break
            else:
                if tries > 2 or -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
                    ctx.violations.append(dict(kind=kind, case=idx, scale=scale, prop=prop, trace="",
                                               message=f"the process died of {signal_name(rc)} (not every time): {text[-3000:]}"))
                else:
                    raise NoAnswer(f"a worker died of {signal_name(rc)} in case {idx}, which alone does not: {text[-2000:]}")
            continue
        if rc == 3 or not os.path.exists(s.out):
            raise NoAnswer(f"harness error: {text[-3000:]}")
        with open(s.out) as f:
            doc = json.load(f)
        cases += doc["cases"]
        ctx.nontrivial += doc["nontrivial"]
        for k, v in doc["counters"].items():
            ctx.counters[k] = ctx.counters.get(k, 0) + v
        if len(ctx.samples) < 4:
            ctx.samples += [dict(build=kind, workload=prop, **x) for x in doc["samples"][:1]]
        with open(s.out + ".sigs", "rb") as f:
            b = f.read()
        if prop == ctx.prop and len(ctx.sigs) < 20_000_000:
            ctx.sigs.update(struct.unpack(f"<{len(b) // 8}Q", b))
        for v in doc["violations"]:
            _, so, _ = one_case(binary, kind, ctx, prop, v["case"], scale, mem, 2 * CASE_CPU * slow)
            ctx.violations.append(dict(kind=kind, case=v["case"], scale=scale, prop=prop, message=v["message"], trace=so[:20000]))
    ctx.cases += cases
    ctx.stages.append(f"{kind} build, workload {prop}: {cases} cases in {time.time() - t:.0f} s on {shards} processes")
    log(ctx.stages[-1])


# ---------------------------------------------------------------- known findings

def known_findings():
    out = {}
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line.strip())
                if m:
                    out[m.group(2)] = (m.group(1), m.group(3))
    except OSError:
        pass
    return out


def probes(ctx, binary):
    """Specific inputs that exhaust memory, each in a process of its own under a limit."""
    known = known_findings()
    for name in ("source-index", "line-zero"):
        p = subprocess.Popen([binary, "probe", name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=run_env("debug"),
                             cwd=ctx.dir, preexec_fn=limits("debug", 3 * GB // 2), start_new_session=True)
        try:
            so, se = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            reap(p)
            raise NoAnswer(f"probe {name} did not end")
        ctx.counters["probes of known findings"] = ctx.counters.get("probes of known findings", 0) + 1
        if p.returncode == 0 and b"SURVIVED" in so:
            log(f"probe {name}: no failure")
            continue
        if p.returncode == 3:
            raise NoAnswer(f"probe {name}: {se.decode(errors='replace')}")
        if name in known and known[name][0] == ctx.prop and -p.returncode == signal.SIGABRT and b"memory allocation" in se:
            print(f"KNOWN-FINDING: property={ctx.prop} {known[name][1]}", flush=True)
            ctx.counters["known findings seen"] = ctx.counters.get("known findings seen", 0) + 1
        else:
            ctx.violations.append(dict(kind="debug", case=None, scale=1, prop=ctx.prop, probe=name, trace="",
                                       message=f"probe {name} ends with {p.returncode}: {se.decode(errors='replace')[-2000:]}"))


def miri(ctx, secs):
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "miri")
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-tree-borrows -Zmiri-ignore-leaks"
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--"]
    p = subprocess.run(base + ["case", "C01", "--idx", "0"], cwd=MON, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-3000:])
        raise NoAnswer("Miri does not run")
    log("Miri is ready")
    jobs = []
    for i in range(8):
        out = os.path.join(ctx.dir, f"miri-{i}")
        jobs.append((i, out, subprocess.Popen(
            base + ["worker", "C30", "--seed", str(ctx.seed), "--tier", ctx.tier, "--shard", str(i), "--shards", "8", "--count", "100000",
                    "--secs", str(secs), "--scale", "10000", "--out", out + ".json", "--status", out + ".status"],
            cwd=MON, env=env, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"), start_new_session=True)))
    total = 0
    for i, out, p in jobs:
        try:
            p.wait(timeout=max(1, secs + 900))
        except subprocess.TimeoutExpired:
            reap(p)
            raise NoAnswer("Miri did not end")
        with open(out + ".err", errors="replace") as f:
            text = f.read()
        m = re.search(r"error: (Undefined Behavior|.*data race|abnormal termination|unsupported operation|memory leaked).*", text)
        if m and "Undefined Behavior" in m.group(0):
            with open(out + ".status", "rb") as f:
                idx = struct.unpack("<Q", f.read(8))[0]
            ctx.violations.append(dict(kind="miri", case=idx, scale=10000, prop="C30", message="Miri: " + text[m.start():m.start() + 6000], trace=""))
            continue
        if p.returncode != 0 or not os.path.exists(out + ".json"):
            raise NoAnswer(f"Miri: {text[-2000:]}")
        with open(out + ".json") as f:
            total += json.load(f)["cases"]
    ctx.cases += total
    ctx.counters["cases interpreted by Miri"] = total
    ctx.stages.append(f"Miri, workload C30 scaled down: {total} cases")
    log(ctx.stages[-1])


# ---------------------------------------------------------------- the check

def decide(ctx):
    prop, thorough = ctx.prop, ctx.tier == "thorough"
    rule = RULES[prop]
    secs = rule.get("thorough_secs", 240) if thorough else rule.get("quick_secs", 15)
    mem = rule.get("mem", 4) * GB
    binary = build("debug")
    whole = prop == "C01"  # every argument, on any machine that does it in time
    stage(ctx, binary, "debug", prop, 400 if whole else secs, count=64 + (1 << 14) if whole else 10**11, mem=mem)
    ctx.exhaustive = whole and ctx.counters.get("numbers encoded", 0) >= 1 << 32
    if ctx.violations:
        return
    if prop == "C30":
        probes(ctx, binary)
        if ctx.violations:
            return
        asan = build("asan")
        stage(ctx, asan, "asan", prop, 120 if thorough else 15, scale=20)
        if thorough:
            for other in sorted(RULES):
                # Every other workload again, watched by the address sanitizer.
                if other not in ("C28", "C29", "C30") and not ctx.violations:
                    stage(ctx, asan, "asan", other, 6, scale=20)
            if not ctx.violations:
                stage(ctx, build("release"), "release", prop, 60)
            if not ctx.violations:
                miri(ctx, 150)
    if prop in ("C28", "C29"):
        tsan = build("tsan")
        stage(ctx, tsan, "tsan", prop, 200 if thorough else 20)
        if thorough and not ctx.violations:
            other = "C29" if prop == "C28" else "C28"
            stage(ctx, tsan, "tsan", other, 60)
    elif (thorough or rule.get("release")) and prop != "C30" and not ctx.violations:
        # As shipped: optimised, and arithmetic wraps instead of panicking.
        stage(ctx, build("release"), "release", prop, 60 if thorough else 8, mem=mem)


def floors(ctx):
    if ctx.violations:
        return
    for name, least in RULES[ctx.prop].get("floors", {}).items():
        seen = ctx.cases if name == "cases" else ctx.counters.get(name, 0)
        if seen < least:
            raise NoAnswer(f"too little was observed: {name} {seen}, at least {least} needed")


def write_evidence(ctx):
    rule = RULES[ctx.prop]
    doc = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ctx.cases,
            "distinct_nontrivial": len(ctx.sigs),
            "rule": rule["rule"],
            "samples": ctx.samples[:4],
            "nontrivial_cases": ctx.nontrivial,
            "observed": dict(sorted(ctx.counters.items())),
            "stages": ctx.stages,
            **({"exhaustive": True} if ctx.exhaustive else {}),
        },
        "assumptions": rule.get("assumptions", []),
        "wall_s": round(time.time() - START, 2),
        "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", ctx.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


def report(ctx):
    v = min(ctx.violations, key=lambda v: (len(v["trace"]), len(v["message"])))
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{ctx.prop}-{ctx.tier}-{ctx.seed}-{v['case']}.json")
    with open(path, "w") as f:
        json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, workload=v["prop"], build=v["kind"], case=v["case"], scale=v["scale"],
                       probe=v.get("probe"), message=v["message"], trace=v["trace"].splitlines(),
                       how=f"python3 check.py --replay {path}"), f, indent=1, ensure_ascii=False)
    print(v["message"][:3000])
    print(f"VIOLATION property={ctx.prop} replay={path}", flush=True)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    kind = v["build"]
    if v.get("probe") or kind == "miri":
        print("\n".join([v["message"]] + v["trace"]))
        return 0
    ctx = Ctx(v["property"], v["tier"], v["seed"], tempfile.mkdtemp(prefix="replay-"))
    try:
        rc, so, se = one_case(build(kind), kind, ctx, v["workload"], v["case"], v["scale"], 4 * GB, 100)
        print(so[-20000:], se[-8000:], f"exit {rc}")
        return 0
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = tempfile.mkdtemp(prefix=f"mon-{prop}-")
    ctx = Ctx(prop, tier, seed, d)
    try:
        decide(ctx)
        floors(ctx)
        write_evidence(ctx)
        if ctx.violations:
            report(ctx)
            return 1
        log(f"{prop} held: {ctx.cases} cases, {len(ctx.sigs)} distinct observations")
        return 0
    except NoAnswer as e:
        print(f"NO ANSWER: {e}")
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
