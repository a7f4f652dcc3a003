#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py build [CONFIG...]          build simulators (setup)
  check.py C01 [quick|thorough]       decide one property
  check.py replay FILE                re-execute a replay file
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "known-findings.txt")
X64, X86 = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu"
CPUS = max(1, min(8, os.cpu_count() or 1))

# name: (target, release, force_bits, instrumentation)
CONFIGS = {
    "n64": (X64, False, None, "edges"),
    "b16": (X64, False, 16, "edges"),
    "b32": (X64, False, 32, "edges"),
    "i686": (X86, False, None, "edges"),
    "n64r": (X64, True, None, "edges"),
    "n64t": (X64, False, None, "mem"),
    "b16t": (X64, False, 16, "mem"),
}
DESCRIBE = {
    "n64": "64-bit words, debug assertions and overflow checks on",
    "b16": "16-bit words (numbers end at 65536 bits), debug assertions on",
    "b32": "32-bit words on a 64-bit machine, debug assertions on",
    "i686": "32-bit machine, debug assertions on",
    "n64r": "64-bit words, release profile",
    "n64t": "64-bit words, every edge and memory access a preemption point",
    "b16t": "16-bit words, every edge and memory access a preemption point",
}

# property: {tier: [(config, scenarios)]}; seconds: exploration stops then, whatever is left
PLAN = {
    1: {"quick": [("n64", 9000), ("b16", 5000)]},
    2: {"quick": [("n64", 5000), ("b16", 3000)]},
    3: {"quick": [("n64t", 14000)]},
    4: {"quick": [("n64", 8000), ("b16", 4000)]},
    5: {"quick": [("n64", 8000), ("b16", 4000)]},
    6: {"quick": [("n64", 9000), ("b16", 9000), ("i686", 9000)]},
    7: {"quick": [("n64", 5000), ("b16", 3000)]},
    8: {"quick": [("n64", 9000), ("b16", 6000)]},
    9: {"quick": [("n64", 9000), ("b16", 5000)]},
    10: {"quick": [("n64", 6000), ("b16", 4000)]},
    11: {"quick": [("n64", 9000), ("b16", 4000)]},
    12: {"quick": [("n64", 3500), ("b16", 5500), ("n64r", 2500)]},
    13: {"quick": [("n64", 8000), ("b16", 3000)]},
    14: {"quick": [("n64", 2800), ("b16", 2200), ("i686", 1200)]},
    15: {"quick": [("n64", 3000), ("b16", 2000)]},
}
ALL = ["n64", "b16", "b32", "i686", "n64r"]
for _p, _t in PLAN.items():
    _n = max(n for _, n in _t["quick"])
    if _p == 3:
        _t["thorough"] = [("n64t", 12 * _n), ("b16t", 6 * _n)]
    elif _p == 6:
        _t["thorough"] = [(c, 8 * _n) for c in ALL]
    else:
        _t["thorough"] = [(c, 8 * _n) for c in ALL]
SECONDS = {"quick": 150, "thorough": 3600}
# no minimising later than this after the start
LATEST = {"quick": 420, "thorough": 5400}
STARTED = time.time()
CHUNK = {"quick": 100, "thorough": 200}
# an operation that stays outside instrumented code for this long hangs; generous, never met
CHUNK_TIMEOUT = 420
EXEC_TIMEOUT = 180


class Broken(Exception):
    """The check itself cannot work."""


# ---- building ------------------------------------------------------------------------------------


def binary(cfg):
    t, rel, _, _ = CONFIGS[cfg]
    return os.path.join(BUILD, cfg, t, "release" if rel else "debug", "sim")


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "build.rs", "Cargo.toml"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            files.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def build(cfg, log=None):
    target, release, bits, instr = CONFIGS[cfg]
    out = os.path.join(BUILD, cfg)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("CARGO_", "RUSTC_", "RUSTDOC")) and k not in ("CARGO_HOME",):
                env.pop(k)
        env.update(
            RUSTUP_TOOLCHAIN="1.99.1-x86_64-unknown-linux-gnu",
            RUSTC_BOOTSTRAP="1",
            CARGO_NET_OFFLINE="true",
            CARGO_TARGET_DIR=out,
            CARGO_BUILD_JOBS=str(CPUS),
            CARGO_TERM_COLOR="never",
            SIM_CONFIG=cfg,
            SIM_SANCOV=instr,
            RUSTC_WRAPPER=os.path.join(HERE, "tools", "rustc-wrap.sh"),
            RUSTFLAGS=f'--cfg force_bits="{bits}"' if bits else "",
        )
        args = ["--target", target] + (["--release"] if release else [])
        stamp = os.path.join(out, "stamp")
        h = tree_hash()
        try:
            old = open(stamp).read()
        except OSError:
            old = ""
        if old != h:
            # never trust time stamps of the code under test
            if os.path.exists(stamp):
                os.remove(stamp)
            subprocess.run(["cargo", "clean", "-p", "ibig", "--offline"] + args, cwd=os.path.join(HERE, "sim"), env=env, capture_output=True)
        r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=os.path.join(HERE, "sim"), env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(binary(cfg)):
            raise Broken(f"building {cfg} failed:\n{r.stderr[-6000:]}")
        with open(stamp, "w") as f:
            f.write(h)


def build_all(cfgs):
    cfgs = list(dict.fromkeys(cfgs))
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(build, c) for c in cfgs]:
            f.result()


# ---- findings ------------------------------------------------------------------------------------


def findings():
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\S+) id=(\S+) config=(\S+) replay=(\S+) (.*)", l.strip())
            if m:
                out.append(dict(zip(("property", "id", "config", "replay", "what"), m.groups())))
    return out


def sim_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith("SIM_")}
    env["SIM_KNOWN"] = ",".join(f["id"] for f in findings())
    return env


# ---- running -------------------------------------------------------------------------------------


def classify(msg):
    """The kind of a violation: what is said, without particular numbers."""
    msg = re.sub(r"under allocator \d+: ", "", msg)
    msg = re.sub(r"^(?:thread \d+: )?[a-z]+\.[\w.]+: ", "", msg)
    msg = re.sub(r"\(?/repo\S*", "", msg)
    msg = re.sub(r"-?0x[0-9a-f.]+|\"[^\"]*\"|\b[0-9a-f]{6,}\b|\d+", "#", msg)
    return msg[:60]


def outcome(r):
    """(kind, message) of a finished simulator process; kind: ok, violated, broken"""
    out = r.stdout
    m = re.search(r"^VIOLATED (\S+) (.*)$", out, re.M)
    if m:
        return "violated", m.group(2)
    m = re.search(r"SIM-FATAL (.*)", out + r.stderr)
    if m and r.returncode == 97:
        return "violated", m.group(1)
    if r.returncode == 0:
        return "ok", ""
    if r.returncode == 2:
        return "broken", (out + r.stderr)[-500:]
    if r.returncode == 98:
        return "violated", "the process needs unbounded memory"
    if r.returncode < 0:
        return "violated", f"process ended by signal {-r.returncode}"
    return "violated", f"process ended with status {r.returncode}: " + r.stderr.strip()[-300:].replace("\n", " ")


def sim(cfg, args, timeout, **more):
    """Runs a simulator. A run over its time is a hang."""
    p = subprocess.Popen([binary(cfg)] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(sim_env(), **more), errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return subprocess.CompletedProcess(args, 97, o, e + f"\nSIM-FATAL hang: no end within {timeout} s\n")
    return subprocess.CompletedProcess(args, rc, o, e)


class Totals:
    def __init__(self):
        self.scenarios = self.ops = 0
        self.cpu = 0.0
        self.stats = {}
        self.hll = [0] * 4096
        self.edges = {}
        self.per = {}
        self.logs = {}
        self.fulls = {}
        self.eventful = 0
        self.distinct = set()

    def add(self, cfg, out):
        for m in re.finditer(r"^DIGEST (\d+) (\w+) (\w+) (\d+)$", out, re.M):
            i, l, f, n = int(m[1]), m[2], m[3], int(m[4])
            self.logs.setdefault(cfg, {})[i] = l
            self.fulls.setdefault(cfg, {})[i] = f
            if n > 0:
                self.eventful += 1
                self.distinct.add(f)
        for m in re.finditer(r"^TOTALS (.*)$", out, re.M):
            self.merge(cfg, json.loads(m[1]))

    def merge(self, cfg, d):
        self.scenarios += d["scenarios"]
        self.ops += d["ops"]
        self.cpu += d["seconds"]
        p = self.per.setdefault(cfg, [0, 0])
        p[0] += d["scenarios"]
        p[1] += d["ops"]
        for k, v in d["stats"].items():
            if k.startswith("max."):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for k, c in enumerate(d["hll"]):
            self.hll[k] = max(self.hll[k], ord(c) - 48)
        b = int.from_bytes(bytes.fromhex(d["edges"]), "little")
        o = self.edges.get(cfg, (0, 0))
        self.edges[cfg] = (o[0] | b, d["edges_total"])

    def states(self):
        m = 4096
        z = self.hll.count(0)
        e = 0.7213 / (1 + 1.079 / m) * m * m / sum(2.0 ** -x for x in self.hll)
        if e <= 2.5 * m and z:
            import math

            e = m * math.log(m / z)
        return int(e)


class Found(Exception):
    def __init__(self, cfg, kind, msg, text, chunk):
        self.cfg, self.kind, self.msg, self.text, self.chunk = cfg, kind, msg, text, chunk


def scratch(name):
    d = os.path.join(BUILD, "run-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)


def run_chunk(prop, cfg, seed, start, count):
    prog = scratch(f"{cfg}-{start}.progress")
    out = scratch(f"{cfg}-{start}.sim")
    r = sim(cfg, ["run", "--prop", str(prop), "--seed", str(seed), "--start", str(start), "--count", str(count), "--digests", "--progress", prog, "--out", out], CHUNK_TIMEOUT)
    kind, msg = outcome(r)
    if kind == "ok":
        return r.stdout, None
    if kind == "broken":
        raise Broken(f"simulator {cfg}: {msg}")
    text = None
    idx = None
    m = re.search(r"^VIOLATED (\d+) ", r.stdout, re.M)
    if m and os.path.exists(out):
        idx = int(m[1])
        text = open(out).read()
    else:
        try:
            idx = int(open(prog).read().strip())
        except (OSError, ValueError):
            raise Broken(f"simulator {cfg} ended without progress: {msg}")
        sim(cfg, ["gen", "--prop", str(prop), "--seed", str(seed), "--start", str(idx), "--out", out], EXEC_TIMEOUT)
        if os.path.exists(out):
            text = open(out, errors="replace").read()
    return r.stdout, Found(cfg, kind, msg, text, (seed, start, idx))


def explore(prop, tier, seed):
    plan = PLAN[prop][tier]
    totals = Totals()
    jobs = []
    step = CHUNK[tier]
    most = max(n for _, n in plan)
    k = 0
    while k * step < most:
        for cfg, n in plan:
            if k * step < n:
                jobs.append((cfg, k * step, min(step, n - k * step)))
        k += 1
    end = time.time() + SECONDS[tier]
    stop = threading.Event()
    founds, errors = [], []
    lock = threading.Lock()

    def work(job):
        cfg, start, count = job
        if stop.is_set() or time.time() > end:
            return
        try:
            out, found = run_chunk(prop, cfg, seed, start, count)
        except Broken as e:
            with lock:
                errors.append(e)
            stop.set()
            return
        with lock:
            totals.add(cfg, out)
            if found:
                founds.append((jobs.index(job), found))
                stop.set()

    with cf.ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(work, jobs))
    if errors and not founds:
        raise errors[0]
    founds.sort(key=lambda x: x[0])
    return totals, [f for _, f in founds]


# ---- determinism sample --------------------------------------------------------------------------


def determinism(prop, tier, seed, totals):
    """The same seeds again, split over processes differently: every digest must come out the same."""
    jobs = []
    for cfg, n in PLAN[prop][tier]:
        size = 25 if tier == "quick" else 60
        a = (seed * 131) % max(1, min(n, 400) - 2 * size)
        jobs += [(cfg, a, size // 2 + 3), (cfg, a + size // 2 + 3, size - size // 2 - 3)]
    same = diff = 0

    def go(j):
        r = sim(j[0], ["run", "--prop", str(prop), "--seed", str(seed), "--start", str(j[1]), "--count", str(j[2]), "--digests"], CHUNK_TIMEOUT)
        return j[0], r.stdout

    with cf.ThreadPoolExecutor(CPUS) as ex:
        for cfg, out in ex.map(go, jobs):
            for m in re.finditer(r"^DIGEST (\d+) (\w+) (\w+) ", out, re.M):
                f = totals.fulls.get(cfg, {}).get(int(m[1]))
                if f is not None:
                    same, diff = same + (f == m[3]), diff + (f != m[3])
    return same, diff


# ---- comparing configurations (C06) --------------------------------------------------------------


def compare_configs(prop, tier, seed, totals):
    cfgs = [c for c, _ in PLAN[prop][tier]]
    base = cfgs[0]
    n = 0
    for i, l in sorted(totals.logs.get(base, {}).items()):
        for c in cfgs[1:]:
            o = totals.logs.get(c, {}).get(i)
            if o is None:
                continue
            n += 1
            if o != l:
                f = scratch("cross.sim")
                sim(base, ["gen", "--prop", str(prop), "--seed", str(seed), "--start", str(i), "--out", f], EXEC_TIMEOUT)
                text = open(f).read()
                text = re.sub(r"^config .*$", f"config {base} {c}", text, flags=re.M)
                return n, Found(f"{base} {c}", "violated", f"the same history leaves different values or bytes in {base} and {c}", text, (seed, i, i))
    return n, None


# ---- replay and minimisation ---------------------------------------------------------------------

counter = [0]
count_lock = threading.Lock()


def exec_text(cfgs, text, **env):
    """(kind, message) of executing a scenario text in fresh processes"""
    with count_lock:
        counter[0] += 1
        n = counter[0]
    f = scratch(f"exec-{n}.sim")
    with open(f, "w") as x:
        x.write(text)
    logs = []
    try:
        for c in cfgs:
            r = sim(c, ["exec", f], EXEC_TIMEOUT, **env)
            k, m = outcome(r)
            if k != "ok":
                return k, m
            g = re.search(r"log=(\w+)", r.stdout)
            logs.append(g[1] if g else "")
        if len(set(logs)) > 1:
            return "violated", f"the same history leaves different values or bytes in {cfgs[0]} and {cfgs[1]}"
        return "ok", ""
    finally:
        os.remove(f)


def exec_seq(text):
    g = dict(l.split(None, 1) for l in text.splitlines()[1:] if l.strip())
    s, a, b = g["range"].split()
    r = sim(g["config"], ["run", "--prop", g["prop"], "--seed", s, "--start", a, "--count", str(int(b) - int(a) + 1)], CHUNK_TIMEOUT)
    return outcome(r)


def execute(text):
    if text.startswith("ibig-sim-seq"):
        return exec_seq(text)
    m = re.search(r"^config (.*)$", text, re.M)
    return exec_text(m[1].split(), text)


HEAD = ("ibig-sim", "prop ", "config ", "origin ", "plans ", "slots ", "threads ")


def split(text):
    ls = [l for l in text.splitlines() if l.strip()]
    k = 0
    while k < len(ls) and ls[k].startswith(HEAD):
        k += 1
    return ls[:k], ls[k:]


def explicit(text, cls):
    """The same scenario with its recorded schedule written out, or None."""
    m = re.search(r"^config (.*)$", text, re.M)
    f = scratch("explicit.sim")
    open(f, "w").write(text)
    r = sim(m[1], ["exec", f], EXEC_TIMEOUT, SIM_SWITCHES="1")
    rec = {int(a): b.split() for a, b in re.findall(r"^SWITCHES (\d+)((?: \d+:\d+)*)$", r.stdout + r.stderr, re.M)}
    head, body = split(text)
    out, k = [], 0
    for l in body:
        if l.startswith("phase ") and k in rec:
            l = "phase 9 1 0 1"
            out.append(l)
            out += ["switch " + x.replace(":", " ") for x in rec[k]]
            k += 1
        else:
            out.append(l)
    if not k or len(out) > 30000:
        return None
    t = "\n".join(head + out) + "\n"
    k, m = execute(t)
    return t if k == "violated" and classify(m) == cls else None


def minimise(text, cls, deadline):
    small = minimise_lines(text, cls, deadline)
    if re.search(r"^threads ", text, re.M):
        t = explicit(small, cls)
        if t:
            small = minimise_lines(t, cls, min(deadline + 60, STARTED + LATEST["thorough"]))
    return small


def minimise_lines(text, cls, deadline):
    head, body = split(text)
    cfgs = [l.split()[1:] for l in head if l.startswith("config ")][0]

    # a hang is cut short while it is made smaller; the result is confirmed at full length
    env = {"SIM_STEPS": "200000000"} if re.search("no progress|no end|hang", cls) else {}

    def fails(b, h=None):
        k, m = exec_text(cfgs, "\n".join((h or head) + b) + "\n", **env)
        return k == "violated" and classify(m) == cls

    def first_failing(cands):
        """index of the first candidate that still fails; several tried at once"""
        for k in range(0, len(cands), CPUS):
            if time.time() > deadline:
                return None
            batch = cands[k : k + CPUS]
            with cf.ThreadPoolExecutor(CPUS) as ex:
                res = list(ex.map(fails, batch))
            for j, r in enumerate(res):
                if r:
                    return k + j
        return None

    # drop lines
    n = 2
    while len(body) > 1 and time.time() < deadline:
        size = -(-len(body) // n)
        cands = [body[:i] + body[i + size :] for i in range(0, len(body), size)]
        j = first_failing(cands)
        if j is not None:
            body = cands[j]
            n = max(2, n - 1)
        elif n >= len(body):
            break
        else:
            n = min(len(body), 2 * n)
    # one allocator is simpler than three
    for i, l in enumerate(head):
        if l.startswith("plans ") and l != "plans 0" and time.time() < deadline:
            p = l.split()[1:]
            tries = [["0"]] + ([p[:1]] if len(p) > 1 else []) + [[p[0], x] for x in p[1:]]
            for t in tries:
                h = head[:i] + ["plans " + " ".join(t)] + head[i + 1 :]
                if len(t) < len(p) or t == ["0"]:
                    if fails(body, h):
                        head = h
                        break
    # simpler lines
    for i in range(len(body)):
        changed = True
        rounds = 0
        while changed and rounds < 40 and time.time() < deadline:
            rounds += 1
            changed = False
            cands = []
            for l in simpler(body[i]):
                cands.append(body[:i] + [l] + body[i + 1 :])
            j = first_failing(cands)
            if j is not None:
                body = cands[j]
                changed = True
    return "\n".join(head + body) + "\n"


def simpler(l):
    ps = l.split(" ")
    out = []
    if ps[0] in ("switch", "phase"):
        return out
    for k, p in enumerate(ps):
        if k == 0:
            continue
        if p.startswith("!"):
            out.append(" ".join(ps[:k] + ps[k + 1 :]))
        elif p.startswith("x=") and len(p) > 4:
            h = p[2:]
            half = len(h) // 4 * 2
            for c in ("ff" * half, "00" * (half - 1) + "01" if half else ""):
                pass
            for c in (h[: half] if half else "01", h[half:], "00" * (len(h) // 2 - 1) + "01", "ff" * (len(h) // 2), h[:-2], h[2:]):
                if c and c != h and (len(c) < len(h) or (set(h) != {"f"} and c.count("0") + c.count("f") > h.count("0") + h.count("f") + 4)):
                    out.append(" ".join(ps[:k] + ["x=" + c] + ps[k + 1 :]))
        elif re.match(r"^[nk]=-?\d{2,}$", p):
            v = int(p[2:])
            for c in (0, 1, v // 2, v - 1):
                if 0 <= c < v:
                    out.append(" ".join(ps[:k] + [p[:2] + str(c)] + ps[k + 1 :]))
    return list(dict.fromkeys(out))


def report(pid, found, tier):
    """Confirms, minimises and writes the replay file; returns its path and the message."""
    prop = int(pid[1:])
    os.makedirs(REPLAYS, exist_ok=True)
    msg, text = found.msg, found.text
    final = None
    if text:
        text = re.sub(r"^config .*$", "config " + found.cfg, text, flags=re.M)
        k, m = execute(text)
        if k == "violated":
            k2, m2 = execute(text)
            if k2 == "violated" and classify(m) == classify(m2):
                small = minimise(text, classify(m), min(time.time() + (90 if tier == "quick" else 400), STARTED + LATEST[tier]))
                k3, m3 = execute(small)
                final, msg = (small, m3) if k3 == "violated" else (text, m)
    if final is None:
        seed, a, b = found.chunk
        final = f"ibig-sim-seq 1\nprop {prop}\nconfig {found.cfg.split()[0]}\nrange {seed} {a} {b}\n"
        k, m = execute(final)
        if k == "violated":
            lo = b
            while lo > a:  # the shortest run of scenarios that still fails
                lo = max(a, b - 2 * (b - lo) - 1)
                t = f"ibig-sim-seq 1\nprop {prop}\nconfig {found.cfg.split()[0]}\nrange {seed} {lo} {b}\n"
                k, m = execute(t)
                if k == "violated":
                    final, msg = t, m
                    break
        else:
            print(f"NOTE {pid}: this failure did not repeat; the replay file names the run it was seen in", file=sys.stderr)
    note = "# " + msg.replace("\n", " ")[:400] + "\n"
    name = f"{pid}-{hashlib.sha256(final.encode()).hexdigest()[:12]}.sim"
    path = os.path.join(REPLAYS, name)
    first, rest = final.split("\n", 1)
    with open(path, "w") as f:
        f.write(first + "\n" + note + rest)
    return path, msg


# ---- evidence ------------------------------------------------------------------------------------

RULE = {
    "default": "A scenario is a random history of operations of the public interface with faults placed inside them, generated from (VERIF_SEED, property, index). Counted as non-trivial when at least one fault fired or one operation was refused or rejected inside it; counted as distinct by a digest of every outcome, every value and every allocator event of the run.",
    3: "A scenario is a set of operations run by 2 to 5 threads under one seeded schedule. Non-trivial: the scheduler switched threads inside it at least once more than needed to start them; distinct by a digest of all outcomes and of the recorded schedule.",
}
REAL = [
    "ibig (all of /repo/src, compiled from the working tree, unmodified)",
    "alloc/std collections and formatting machinery as used by ibig",
    "rand distributions (Uniform, gen_range) and serde traits as used by ibig",
]
STUB = [
    "memory allocator: simulated arena (placement, reuse, alignment, contents, failures)",
    "random source, text writer, serializer, deserializer, hasher: simulated, fault-injecting",
    "disk: simulated byte store with loss, tearing and scrambling at a crash",
    "thread scheduler, locks' futex calls, sleep: simulated (C03)",
]


def evidence(pid, tier, seed, totals, wall, build_s, det, extra, viol, sample):
    prop = int(pid[1:])
    st = totals.stats
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault.")}
    secs = max(wall - build_s, 0.001)
    cov = {
        "evaluations": totals.scenarios,
        "distinct_nontrivial": len(totals.distinct),
        "rule": RULE.get(prop, RULE["default"]),
        "samples": sample,
        "operations": totals.ops,
        "runs_per_hour": int(totals.scenarios / secs * 3600),
        "seeds_per_hour": int(totals.scenarios / secs * 3600),
        "simulated_steps": st.get("steps", 0) + st.get("sched.steps", 0),
        "simulated_time": "the library has no clock; simulated time is counted in executed control-flow edges of the code under test (simulated_steps)",
        "allocations": st.get("alloc.attempts", 0),
        "faults_fired": faults,
        "stopped_by_fault": {k[5:]: v for k, v in sorted(st.items()) if k.startswith("stop.")},
        "refused": {k[8:]: v for k, v in sorted(st.items()) if k.startswith("refused.")},
        "result_sizes": {k[5:]: v for k, v in sorted(st.items()) if k.startswith("size.")},
        "distinct_states_estimate": totals.states(),
        "distinct_states_measure": "HyperLogLog (4096 registers) over the hash of all live values after every operation" if prop != 3 else "HyperLogLog (4096 registers) over the recorded schedules and values after every phase",
        "operation_kinds_run": sum(1 for k in st if k.startswith("sem.")),
        "edges_reached": {c: {"reached": bin(b).count("1"), "instrumented": n} for c, (b, n) in totals.edges.items()},
        "scenarios_per_configuration": {c: {"what": DESCRIBE[c], "scenarios": v[0], "operations": v[1]} for c, v in totals.per.items()},
        "determinism_sample": {"digests_equal": det[0], "digests_different": det[1], "how": "seeds re-run in other processes with another split"},
        "other_counts": {k: v for k, v in sorted(st.items()) if k.split(".")[0] in ("every", "retry", "de", "disk", "rand", "allocators", "max", "known", "sched", "op", "threads", "work", "stack")},
        "real_components": REAL,
        "stub_components": STUB,
    }
    cov.update(extra)
    e = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the simulator's own 128-bit-limb-free reference arithmetic (sim/main/src/nat.rs) is right; it is cross-checked against Python by tools/natcheck.py",
            "rustc, std, rand and serde work as documented",
            "seeded search samples histories and faults; it does not enumerate them",
        ],
        "wall_s": round(wall, 2),
        "violations": viol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))


def sample_text(prop, cfg, seed):
    f = scratch("sample.sim")
    sim(cfg, ["gen", "--prop", str(prop), "--seed", str(seed), "--start", "1", "--out", f], EXEC_TIMEOUT)
    try:
        ls = open(f).read().splitlines()
    except OSError:
        return []
    return [[l if len(l) < 160 else l[:150] + f"...({len(l)} characters)" for l in ls[:30]]]


def check(pid, tier, seed):
    prop = int(pid[1:])
    t0 = time.time()
    mine = [f for f in findings() if f["property"] == pid]
    cfgs = [c for c, _ in PLAN[prop][tier]]
    build_all(cfgs + [f["config"] for f in mine])
    build_s = time.time() - t0
    extra = {}
    if prop == 3:
        err = threads_probe()
        if err:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "C03-probe.txt")
            open(path, "w").write("ibig-sim-probe 1\n" + err)
            print("C03: a type can no longer be moved to or shared between threads")
            evidence(pid, tier, seed, Totals(), time.time() - t0, build_s, (0, 0), {}, 1, ["probe/src/lib.rs"])
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    for f in mine:
        r = sim(f["config"], ["exec", os.path.join(HERE, f["replay"])], EXEC_TIMEOUT)
        if re.search(rf"^KNOWN {f['id']}$", r.stdout, re.M):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    totals, founds = explore(prop, tier, seed)
    if prop == 6 and not founds:
        n, f = compare_configs(prop, tier, seed, totals)
        extra["histories_compared_between_configurations"] = n
        if f:
            founds.append(f)
    if founds:
        path, msg = report(pid, founds[0], tier)
        evidence(pid, tier, seed, totals, time.time() - t0, build_s, (0, 0), extra, 1, [open(path).read()[:3000]])
        print(f"{pid}: {msg[:500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    det = determinism(prop, tier, seed, totals)
    if det[1]:
        print(f"NOTE {pid}: {det[1]} of {sum(det)} re-run scenarios had another digest", file=sys.stderr)
    evidence(pid, tier, seed, totals, time.time() - t0, build_s, det, extra, 0, sample_text(prop, cfgs[0], seed))
    print(f"{pid} {tier}: held on {totals.scenarios} scenarios, {totals.ops} operations, {len(totals.distinct)} distinct eventful runs, {time.time()-t0:.0f} s ({build_s:.0f} s building)")
    return 0


def threads_probe():
    """Moving to and sharing between threads is decided by the compiler first."""
    d = os.path.join(HERE, "probe")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.99.1-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.path.join(BUILD, "probe"), CARGO_TERM_COLOR="never")
    stamp = os.path.join(BUILD, "probe", "stamp")
    h = tree_hash()
    if not os.path.exists(stamp) or open(stamp).read() != h:
        subprocess.run(["cargo", "clean", "-p", "ibig", "--offline"], cwd=d, env=env, capture_output=True)
    r = subprocess.run(["cargo", "check", "--offline"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode == 0:
        open(stamp, "w").write(h)
        return None
    if re.search(r"cannot be (sent|shared) between threads", r.stderr):
        return r.stderr[-4000:]
    raise Broken("probe does not compile:\n" + r.stderr[-3000:])


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "build":
            build_all(a[1:] or list(CONFIGS))
            return 0
        if a[0] == "replay":
            text = open(a[1]).read()
            if text.startswith("ibig-sim-probe"):
                err = threads_probe()
                print(err or "FINE")
                if err:
                    print(f"VIOLATION property=C03 replay={os.path.abspath(a[1])}")
                return 1 if err else 0
            m = re.search(r"^config (.*)$", text, re.M)
            build_all(m[1].split())
            k, msg = execute(text)
            p = re.search(r"^prop (\d+)$", text, re.M)
            if k == "violated":
                print(msg)
                print(f"VIOLATION property=C{int(p[1]):02d} replay={os.path.abspath(a[1])}")
                return 1
            print(k, msg)
            return 0 if k == "ok" else 2
        pid = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return check(pid, tier, seed)
    except Broken as e:
        print(f"ERROR {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(os.path.join(BUILD, "run-%d" % os.getpid()), ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
