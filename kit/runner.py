"""Runs one check: builds the tool from /repo's working tree, spreads cases over forked workers, collects what the
monitors observed, writes the evidence file and reports violations."""
import fcntl
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CPU_LIMIT = 20        # a run of the tool (normally some milliseconds) that used this much processor time hangs
WALL_LIMIT = 60


class Inconclusive(Exception):
    """The case could not be decided (harness trouble, wall-clock timeout)."""


class Violation(Exception):
    def __init__(self, msg, files=None, cmd=None, key=None):
        Exception.__init__(self, msg)
        self.msg, self.files, self.cmd, self.key = msg, files or {}, cmd, key


class Known(Exception):
    """A listed finding was observed."""
    def __init__(self, fid, msg):
        Exception.__init__(self, msg)
        self.fid, self.msg = fid, msg


class Out:
    """What one case observed."""
    def __init__(self):
        self.tags = Counter()
        self.key = None          # identity of the case for distinctness
        self.nontrivial = False
        self.sample = None
        self.runs = 0


def log(*a):
    print(*a, flush=True)


def build_env():
    e = dict(os.environ)
    try:
        o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
        for kv in o.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode("utf8", "replace")
    except OSError:
        pass
    return e


def build(dest, extra=None):
    """Build the svdtools binary of /repo's current tree and copy it to dest."""
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    with open(os.path.join(VERIF, ".build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = build_env()
        env["CARGO_TARGET_DIR"] = os.path.join(REPO, "target")
        for d in ("debug",):
            fp = os.path.join(REPO, "target", d, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("svdtools-"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        p = subprocess.run(["cargo", "build", "--offline", "--bin", "svdtools"], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stderr.write(p.stdout.decode("utf8", "replace")[-4000:])
            log("ERROR: build failed")
            sys.exit(3)
        shutil.copy2(os.path.join(REPO, "target", "debug", "svdtools"), dest)


HANG = 990


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0


class Ctx:
    """Per worker context."""

    def __init__(self, pid, tier, seed, scratch, exe, shared):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = scratch
        self.exe = exe
        self.shared = shared
        self.n = 0
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": scratch, "LC_ALL": "C.UTF-8",
                    "RUST_BACKTRACE": "0"}
        self.out = None

    def fresh(self):
        """Empty directory for the next case."""
        self.n += 1
        d = os.path.join(self.dir, "case")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        self.case = d
        return d

    def path(self, name):
        return os.path.join(self.case, name)

    def write(self, name, text):
        p = self.path(name)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return p

    def read(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def run(self, args, cwd=None, env=None, stdout=None, fsize=None, exe=None):
        """Returns (exit status, stdout bytes, stderr bytes)."""
        e = dict(self.env)
        if env:
            e.update(env)

        def lim():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        try:
            p = subprocess.Popen([exe or self.exe] + list(args), cwd=cwd or self.case, env=e,
                                 stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                                 preexec_fn=lim if fsize is not None else None)
        except OSError as x:
            raise Inconclusive("cannot run: %s" % x)
        try:
            o, er = p.communicate(timeout=WALL_LIMIT)
        except subprocess.TimeoutExpired:
            used = cpu_of(p.pid)
            p.kill()
            p.communicate()
            if used >= CPU_LIMIT:
                return HANG, b"", b"did not end"
            raise Inconclusive("wall-clock limit")
        if self.out is not None:
            self.out.runs += 1
        if p.returncode == -signal.SIGKILL:
            raise Inconclusive("killed")
        return p.returncode, o or b"", er or b""

    def snapshot(self):
        """Files of the case directory, for a replay."""
        r = {}
        for root, _, fs in os.walk(self.case):
            for f in fs:
                p = os.path.join(root, f)
                try:
                    if os.path.isfile(p) and os.path.getsize(p) < 4 << 20:
                        with open(p, "rb") as h:
                            r[os.path.relpath(p, self.case)] = h.read()
                except OSError:
                    pass
        return r


def rng_for(pid, seed, i):
    return random.Random("%s/%d/%d" % (pid, seed, i))


def _worker(mod, ctx, idxs, deadline, pipe, stop_after=3):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    tags = Counter()
    keys = set()
    samples = []
    res = {"done": 0, "runs": 0, "nontrivial": 0, "violations": [], "known": {}, "inconclusive": [], "errors": []}
    for i in idxs:
        if time.time() > deadline:
            res["timeout"] = True
            break
        if len(res["violations"]) >= stop_after:
            break
        out = Out()
        ctx.out = out
        rng = rng_for(ctx.pid, ctx.seed, i)
        ctx.fresh()
        try:
            mod.case(ctx, rng, i, out)
        except Violation as v:
            files = dict(ctx.snapshot())
            res["violations"].append((i, v.msg, v.cmd, {k: b if isinstance(b, bytes) else str(b).encode()
                                                       for k, b in list(files.items()) + list(v.files.items())}))
        except Known as k:
            res["known"].setdefault(k.fid, k.msg)
        except Inconclusive as x:
            res["inconclusive"].append((i, str(x)))
        except Exception:
            res["errors"].append((i, traceback.format_exc()))
        res["done"] += 1
        res["runs"] += out.runs
        tags.update(out.tags)
        if out.nontrivial:
            k = hashlib.blake2b(repr(out.key).encode(), digest_size=8).hexdigest()
            if k not in keys:
                keys.add(k)
                if out.sample is not None and len(samples) < 2:
                    samples.append(out.sample)
    res["tags"] = dict(tags)
    res["keys"] = list(keys)
    res["samples"] = samples
    with os.fdopen(pipe, "wb") as f:
        f.write(json.dumps(res, default=lambda b: {"__b": b.decode("latin1")}).encode())


def save_replay(pid, i, seed, msg, cmd, files):
    h = hashlib.blake2b(("%s %d %d %s" % (pid, seed, i, msg)).encode(), digest_size=5).hexdigest()
    d = os.path.join(VERIF, "replays", pid, h)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, b in files.items():
        if isinstance(b, dict):
            b = b["__b"].encode("latin1")
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)
    with open(os.path.join(d, "REPLAY.txt"), "w") as f:
        f.write("property %s, VERIF_SEED=%d, case %d\n" % (pid, seed, i))
        f.write("run again: VERIF_SEED=%d /verif/check.sh %s case %d\n" % (seed, pid, i))
        if cmd:
            f.write("command: %s\n" % (cmd if isinstance(cmd, str) else " ".join(map(str, cmd))))
        f.write("\n%s\n" % msg)
    return d


def main(mod, argv):
    pid = mod.PID
    tier = argv[0] if argv and argv[0] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    only = None
    if argv and argv[0] == "case":
        only = [int(x) for x in argv[1:]]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    top = tempfile.mkdtemp(prefix="svdv-%s-" % pid)
    os.chmod(top, 0o755)
    try:
        return _main(mod, pid, tier, only, seed, t0, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _main(mod, pid, tier, only, seed, t0, top):
    exe = os.path.join(top, "svdtools")
    build(exe)
    shared = mod.prepare(top, tier) if hasattr(mod, "prepare") else None
    n = mod.CASES[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale))
    cap = mod.CAP[tier] if hasattr(mod, "CAP") else {"quick": 240, "thorough": 3600}[tier]
    deadline = time.time() + cap
    jobs = min(getattr(mod, "JOBS", 8), os.cpu_count() or 4)
    idxs = list(only) if only is not None else list(range(n))
    random.Random(1).shuffle(idxs)      # expensive kinds of cases come at regular intervals
    parts = [idxs[j::jobs] for j in range(jobs)]
    procs = []
    for j, part in enumerate(parts):
        if not part:
            continue
        rfd, wfd = os.pipe()
        scratch = os.path.join(top, "w%d" % j)
        os.makedirs(scratch)
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.close(rfd)
                _worker(mod, Ctx(pid, tier, seed, scratch, exe, shared), part, deadline, wfd)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(9)
        os.close(wfd)
        procs.append((pid_, rfd))
    results = []
    for pid_, rfd in procs:
        with os.fdopen(rfd, "rb") as f:
            raw = f.read()
        os.waitpid(pid_, 0)
        if not raw:
            log("ERROR: a worker died")
            return 3
        results.append(json.loads(raw))
    tags = Counter()
    keys = set()
    for r in results:
        tags.update(r["tags"])
        keys.update(r["keys"])
    samples = [s for r in results for s in r["samples"]][:4]
    done = sum(r["done"] for r in results)
    viol = [v for r in results for v in r["violations"]]
    inc = [v for r in results for v in r["inconclusive"]]
    err = [v for r in results for v in r["errors"]]
    known = {}
    for r in results:
        known.update(r["known"])
    listed = load_known(pid)
    for k, m in list(known.items()):
        if k not in listed:
            viol.append((-1, "unlisted finding %s: %s" % (k, m), None, {}))
            del known[k]
    cov = {"evaluations": done, "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": samples,
           "tool_runs": sum(r["runs"] for r in results),
           "observed": dict(sorted(tags.items())), "inconclusive": len(inc)}
    if any(r.get("timeout") for r in results):
        cov["stopped_by_time_cap"] = True
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": mod.LEVEL, "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in sorted(listed):
        if k in known:
            log("KNOWN-FINDING: property=%s %s" % (pid, listed[k]))
    for i, tb in err[:1]:
        log("HARNESS ERROR in case %d:\n%s" % (i, tb))
    for i, m in inc[:3]:
        log("inconclusive: case %d: %s" % (i, m))
    log("%s %s seed=%d: %d cases, %d runs of the tool, %d distinct non-trivial, %d inconclusive, %.1fs" % (
        pid, tier, seed, done, cov["tool_runs"], len(keys), len(inc), time.time() - t0))
    log("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(tags.items())))
    if viol:
        viol.sort(key=lambda v: v[0])
        for i, m, cmd, files in viol[:5]:
            d = save_replay(pid, i, seed, m, cmd, files)
            log("case %d: %s" % (i, m[:2000]))
            log("VIOLATION property=%s replay=%s" % (pid, d))
        return 1
    if err:
        return 3
    if only is None:
        low = [k for k in getattr(mod, "MUST_SEE", ()) if not tags.get(k)]
        if low and scale >= 1:
            log("ERROR: monitors never observed: %s" % ", ".join(low))
            return 3
        if len(inc) > done // 10 + 2:
            log("ERROR: too many inconclusive cases")
            return 3
    return 0


def load_known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            k = json.load(f)
    except FileNotFoundError:
        return {}
    return {x["id"]: x["what"] for x in k.get("findings", ()) if x["property"] == pid}
