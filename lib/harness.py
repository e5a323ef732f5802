"""Driver shared by every check: generation (Hypothesis), isolation (one forked
process per generated case, so each case starts from a freshly imported UVM),
shrinking, replay files, known findings and evidence.

A check module in /verif/checks/ defines
  ID, TITLE, RULE          property id, short text, the non-triviality rule
  strategy()               Hypothesis strategy of JSON-able cases
  run(case)                interprets a case against the real uvm code and an
                           independent oracle; raises (any exception) on a
                           violation; returns {"nontrivial": bool, ...counters}
  CASES (optional)         directed cases run before the generated ones
  N (optional)             (quick, thorough) generated examples per shard
  FINDINGS (optional)      {finding-id: case} reproducers of known findings
  LEVEL, ASSUMPTIONS       evidence texts
"""
import argparse
import gc
import hashlib
import importlib
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = 10
WALL_LIMIT = 240
SHRINK_SECONDS = 25


class Violation(AssertionError):
    """The property does not hold. sig identifies the kind of failure."""

    def __init__(self, msg, sig=""):
        super().__init__(msg)
        self.sig = sig


def check(cond, msg, *args, sig=""):
    if not cond:
        raise Violation(msg % args if args else msg, sig)


def eq(got, want, what, sig=""):
    if not (got == want):
        raise Violation("%s: got %r, expected %r" % (what, got, want), sig)


def setup_imports():
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    extra = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if extra not in sys.path:
        sys.path.append(extra)
    import inspect
    inspect.stack = fast_stack
    full = inspect.getframeinfo

    def fast_frameinfo(frame, context=1):
        if not inspect.isframe(frame):
            return full(frame, context)
        return inspect.Traceback(frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name, None, None)
    inspect.getframeinfo = fast_frameinfo
    import simkernel
    simkernel.install()
    saved = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(null, 1)
    try:
        import uvm  # noqa
        from uvm import tlm2  # noqa
        import uvm.reg  # noqa
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)
        os.close(null)
    gc.collect()
    gc.freeze()
    src = os.path.realpath(uvm.__file__)
    if not src.startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep):
        raise RuntimeError("uvm imported from %s, not from %s" % (src, REPO))


def fast_stack(context=1):
    """inspect.stack() without reading source files (uvm_info asks for the caller's
    file and line on every message; the source text lines are not used)."""
    import inspect
    out = []
    f = sys._getframe(1)
    while f is not None:
        out.append(inspect.FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def short_trace(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    frames = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    return " <- ".join(reversed(frames))


def run_isolated(mod, case, scratch):
    """Run one case in a forked child. -> {"ok":bool, ...}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            os.chdir(scratch)
            if not os.environ.get("VERIF_SHOW"):
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
            soft = getattr(mod, "CPU_LIMIT", CPU_LIMIT)
            resource.setrlimit(resource.RLIMIT_CPU, (soft, soft + 2))
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            import random
            random.seed(int(case_key(case), 16))
            try:
                res = mod.run(case) or {}
                res["ok"] = True
            except BaseException as e:  # noqa
                res = {"ok": False, "sig": getattr(e, "sig", "") or "",
                       "msg": ("%s: %s" % (type(e).__name__, e))[:1500], "where": short_trace(e)}
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.time() + WALL_LIMIT
    hung = False
    while True:
        left = deadline - time.time()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if hung:
        return {"ok": False, "sig": "hang", "msg": "the case blocked for %d s" % WALL_LIMIT, "where": ""}
    try:
        return json.loads(buf.decode())
    except ValueError:
        if os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            if s in (signal.SIGXCPU, signal.SIGKILL):
                return {"ok": False, "sig": "nontermination", "where": "",
                        "msg": "the case did not terminate within the CPU limit (signal %d)" % s}
            return {"ok": False, "sig": "signal", "msg": "killed by signal %d" % s, "where": ""}
        return {"ok": False, "sig": "died", "msg": "child died, status %r" % status, "where": ""}


def load_known(pid):
    """known_findings.txt: 'finding property=<id> key=<finding id> <text>'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            f = line.split()
            if len(f) > 3 and f[0] == "finding" and f[1] == "property=" + pid:
                out[f[2].split("=", 1)[1]] = " ".join(f[3:])
    return out


class Acc:
    def __init__(self):
        self.n = 0
        self.keys = set()
        self.samples = []
        self.stats = {}

    def add(self, case, res):
        self.n += 1
        if res.get("ok") and res.get("nontrivial", True):
            self.keys.add(case_key(case))
            if len(self.samples) < 3:
                self.samples.append(case)
        for k, v in res.items():
            if k not in ("ok", "nontrivial", "msg", "sig", "where") and isinstance(v, (int, bool)):
                self.stats[k] = self.stats.get(k, 0) + int(v)


def shard_main(mod, tier, seed, shard, nshards, scratch, out, budget, n_examples):
    acc = Acc()
    state = {"fail": None, "t0": None}
    t_start = time.time()

    def finish():
        json.dump({"n": acc.n, "keys": sorted(acc.keys), "samples": acc.samples, "stats": acc.stats,
                   "fail": state["fail"]}, open(out + ".tmp", "w"))
        os.rename(out + ".tmp", out)
        os._exit(0)

    directed = getattr(mod, "CASES", [])
    for i, case in enumerate(directed):
        if i % nshards == shard:
            res = run_isolated(mod, case, scratch)
            acc.add(case, res)
            if not res["ok"]:
                state["fail"] = {"case": case, "res": res}
                finish()
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity

    stop = {"now": False}

    def body(case):
        case = json.loads(json.dumps(case))
        if state["fail"] is None and time.time() - t_start > budget:
            stop["now"] = True
            return
        res = run_isolated(mod, case, scratch)
        acc.add(case, res)
        if not res["ok"]:
            if state["t0"] is None:
                state["t0"] = time.time()
            cur = state["fail"]
            if cur is None or len(json.dumps(case)) <= len(json.dumps(cur["case"])):
                state["fail"] = {"case": case, "res": res}
            if time.time() - state["t0"] > SHRINK_SECONDS:
                finish()
            raise Violation(res["msg"])
        if state["t0"] is not None and time.time() - state["t0"] > SHRINK_SECONDS:
            finish()

    batch = getattr(mod, "BATCH", 200)
    done = 0
    k = 0
    while done < n_examples and not stop["now"] and time.time() - t_start < budget:
        n = min(batch, n_examples - done)
        test = given(mod.strategy())(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck))(test)
        test = hseed((seed * 1000003 + shard * 7919 + k) & 0xFFFFFFFF)(test)
        try:
            test()
        except Exception as e:  # noqa
            if state["fail"] is None:
                state["harness_error"] = True
                json.dump({"harness_error": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())},
                          open(out, "w"))
                os._exit(0)
            finish()
        done += n
        k += 1
    finish()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--examples", type=int)
    a = ap.parse_args(argv)
    t0 = time.time()
    setup_imports()
    names = [f[:-3] for f in os.listdir(os.path.join(VERIF, "checks")) if f.startswith(a.id + "_") and f.endswith(".py")]
    if len(names) != 1:
        print("no check module for %s" % a.id)
        return 2
    mod = importlib.import_module(names[0])
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % a.id)
    try:
        return main2(a, mod, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main2(a, mod, scratch, t0):
    pid = mod.ID
    if a.replay:
        rep = json.load(open(a.replay))
        res = run_isolated(mod, rep["case"] if "case" in rep else rep, scratch)
        print(json.dumps(res, indent=1))
        if not res["ok"]:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0
    known = load_known(pid)
    finds = getattr(mod, "FINDINGS", {})
    for key in sorted(known):
        if key not in finds:
            print("known finding %s has no reproducer" % key)
            return 2
    reproduced = 0
    for key in sorted(finds):
        res = run_isolated(mod, finds[key], scratch)
        if res["ok"]:
            if key in known:
                print("note: known finding %s no longer reproduces" % key)
        elif key in known:
            reproduced += 1
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, known[key]))
        else:
            return violation(pid, finds[key], res, a)
    n_quick, n_thorough = getattr(mod, "N", (150, 4000))
    n_ex = a.examples or (n_thorough if a.tier == "thorough" else n_quick)
    budget = 780 if a.tier == "thorough" else getattr(mod, "BUDGET", 40)
    if a.tier == "thorough":
        n_ex = a.examples or 10 ** 9 if n_thorough is None else n_ex
    pids = {}
    sys.stdout.flush()
    for s in range(a.jobs):
        d = os.path.join(scratch, "s%d" % s)
        os.mkdir(d)
        out = os.path.join(scratch, "out%d.json" % s)
        p = os.fork()
        if p == 0:
            try:
                shard_main(mod, a.tier, a.seed, s, a.jobs, d, out, budget, n_ex)
            except BaseException:  # noqa
                json.dump({"harness_error": traceback.format_exc()}, open(out, "w"))
            finally:
                os._exit(4)
        pids[p] = out
    outs = []
    failed = None
    live = dict(pids)
    while live:
        p, st = os.wait()
        if p not in live:
            continue
        out = live.pop(p)
        if not os.path.exists(out):
            print("shard produced no result (status %r)" % st)
            for q in live:
                os.kill(q, signal.SIGKILL)
            return 2
        o = json.load(open(out))
        if "harness_error" in o:
            print(o["harness_error"])
            for q in live:
                os.kill(q, signal.SIGKILL)
            return 2
        outs.append(o)
        if o["fail"] is not None and (failed is None or len(json.dumps(o["fail"]["case"])) < len(json.dumps(failed["case"]))):
            failed = o["fail"]
    keys = set()
    stats = {}
    samples = []
    evals = reproduced
    for o in outs:
        keys.update(o["keys"])
        evals += o["n"]
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        samples.extend(o["samples"][:1])
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": mod.RULE,
                     "samples": samples[:5], "counters": stats},
        "wall_s": round(time.time() - t0, 2), "violations": 0 if failed is None else 1,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if failed is not None:
        return violation(pid, failed["case"], failed["res"], a)
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs %s"
          % (pid, evals, len(keys), time.time() - t0, json.dumps(stats)))
    return 0


def violation(pid, case, res, a):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s.json" % (pid, case_key(case)))
    json.dump({"property": pid, "case": case, "result": res}, open(path, "w"), indent=1)
    print(json.dumps(case)[:3000])
    print(res.get("msg"), "|", res.get("where"))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
