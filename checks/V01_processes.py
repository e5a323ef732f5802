from util import *

ID = "V01"
META = {
    "title": "Semaphores, forks, waits and the other SystemVerilog helpers keep their contract",
    "statement": "For every set of processes sharing a semaphore: never more keys are out than it has, blocked processes are served strictly in the order they asked as soon as enough keys are back, try_get succeeds exactly when the keys are there and never waits. fork_join returns when the last of the forked processes has ended, fork_join_any when the first has, fork_join_none at once with all of them running; sv.wait returns when its condition holds after an event, not before. cast stores its source exactly when it is of the type; bit helpers and clog2 are those of the integers; plusargs are found exactly when given; scanning a text made from values with sscanf gives the values back.",
    "over": ["schedules", "histories", "inputs"],
    "quant": "all process sets, key counts, hold times, forks with any durations, events, values and plusargs",
    "why": "The unit tests check cast and one fork at most; blocking and ordering need several processes waiting for different numbers of keys.",
    "files": ["src/uvm/base/sv.py"],
    "mech": [["semaphore.get / put / try_get", "src/uvm/base/sv.py"], ["sv.fork_join / fork_join_any / fork_join_none, wait", "src/uvm/base/sv.py"], ["sv.cast / set_bit / clog2 / sscanf / value_plusargs", "src/uvm/base/sv.py"]],
    "note": "Process sets on a simulated kernel against a key counter with a FIFO queue; the helpers against integer arithmetic.",
}
RULE = "two or more processes waited for the semaphore at the same time, or three or more processes were forked"
N = (200, 20000)
ASSUMPTIONS = ["keys put back were got before (a semaphore never holds more than its initial keys)", "no process is killed while it waits for the semaphore",
               "sscanf formats separate their items by a space"]


def strategy():
    def fn(g):
        keys = g.pick([1, 2, 3, 5])
        procs = [[[g.i(0, 3), g.pick(["get", "get", "get", "try"]), g.i(1, keys), g.i(0, 3), g.b(1, 4)] for _ in range(g.i(1, 5))] for _ in range(g.i(1, 5))]
        return {"keys": keys, "procs": procs, "forks": [g.i(0, 4) for _ in range(g.i(1, 4))], "late": g.b(1, 3), "wait": [g.i(0, 2), g.some(1, 5, lambda: [g.i(0, 2), g.i(0, 3)])],
                "bits": [[g.bits(40), g.i(0, 45), g.i(0, 1)] for _ in range(3)], "scan": g.some(1, 4, lambda: [g.pick("dhbs"), g.bits(20), g.b(1, 4)]),
                "plus": {n: g.pick(["x", "12", True]) for n in g.subset(["A", "AB", "ABC", "SEED", "X_1"])}, "ask": [g.pick(["A", "AB", "ABCD", "SEED", "X_1", "B"]) for _ in range(2)],
                "cast": [g.i(0, 6), g.i(0, 3)]}
    return gen(fn, 300)


def run(case):
    import cocotb
    from cocotb.triggers import Event, Timer
    from cocotb.utils import get_sim_time
    from uvm.base.sv import sv, semaphore, wait
    st = {"blocked": 0, "ops": 0}
    total = case["keys"]
    s = semaphore(total)
    m = {"free": total, "queue": [], "granted": set()}
    now = lambda: get_sim_time("ps")

    async def proc(i, steps):
        for j, (d, op, n, hold, split) in enumerate(steps):
            if d:
                await Timer(d * 1000, "ps")
            st["ops"] += 1
            me = (i, j)
            what = "process %d step %d: %s(%d) at %d" % (i, j, op, n, now())
            if op == "try":
                want = m["free"] >= n
                eq(bool(s.try_get(n)), want, what + " with %d of %d keys free" % (m["free"], total))
                if not want:
                    continue
                m["free"] -= n
            else:
                if not m["queue"] and m["free"] >= n:
                    m["free"] -= n
                    m["granted"].add(me)
                else:
                    m["queue"].append((me, n))
                await s.get(n)
                check(me in m["granted"], "%s returned although %r, free %d", what, m["queue"], m["free"])
                m["granted"].discard(me)
            if hold:
                await Timer(hold * 1000, "ps")
            for k in ([1] * n if split else [n]):
                give(k)
                s.put(k)

    def give(n):
        m["free"] += n
        while m["queue"] and m["queue"][0][1] <= m["free"]:
            me, k = m["queue"].pop(0)
            m["free"] -= k
            m["granted"].add(me)

    async def sem():
        tasks = [cocotb.start_soon(proc(i, p)) for i, p in enumerate(case["procs"])]
        await Timer(500, "ps")
        for _ in range(5 * sum(len(p) for p in case["procs"]) * 2 + 5):
            check(not m["granted"], "still waiting although the keys are there: %r", sorted(m["granted"]))
            st["blocked"] = max(st["blocked"], len(m["queue"]))
            if all(t.done() for t in tasks):
                break
            await Timer(1000, "ps")
        check(all(t.done() for t in tasks) and not m["queue"], "processes are blocked for good: %r", m["queue"])
        eq(m["free"], total, "keys (model)")
        check(s.try_get(total), "not all keys are back")
        check(not s.try_get(1), "there is a key too many")
        bad = None
        try:
            await s.get(total + 1)
        except Exception as e:
            bad = e
        check(bad is not None, "a get of more keys than there are returned")

    async def job(d, ended, k):
        if d:
            await Timer(d * 1000, "ps")
        ended.append((k, now()))
        return k

    async def forks():
        ds = case["forks"]
        ended = []
        t0 = now()
        tasks = [cocotb.start_soon(job(d, ended, k)) for k, d in enumerate(ds)]
        if case["late"]:
            await Timer(1000, "ps")
        await sv.fork_join(tasks)
        eq(now(), max([t0 + 1000 * max(ds)] + [t0 + 1000] * case["late"]), "fork_join of %r returned" % ds)
        eq(len(ended), len(ds), "processes ended when fork_join returned")
        ended = []
        t0 = now()
        tasks = [cocotb.start_soon(job(d, ended, k)) for k, d in enumerate(ds)]
        await sv.fork_join_any(tasks)
        eq(now(), t0 + 1000 * min(ds), "fork_join_any of %r returned" % ds)
        check(ended and all(t <= now() for _, t in ended), "fork_join_any returned before a process had ended")
        await Timer(6000, "ps")
        eq(sorted(ended), sorted((k, t0 + 1000 * d) for k, d in enumerate(ds)), "processes after fork_join_any")
        ended = []
        t0 = now()
        res = await sv.fork_join_none([job(d, ended, k) for k, d in enumerate(ds)])
        eq(now(), t0, "fork_join_none returned")
        eq(len(res), len(ds), "tasks returned by fork_join_none")
        await Timer(6000, "ps")
        eq(sorted(ended), sorted((k, t0 + 1000 * d) for k, d in enumerate(ds)), "processes after fork_join_none")
        check(all(t.done() for t in res), "tasks of fork_join_none")

    async def waits():
        target, evs = case["wait"]
        v = {"x": -1}
        ev = Event()
        done = []

        async def waiter():
            await wait(lambda: v["x"] >= target, ev)
            done.append(now())
        t = cocotb.start_soon(waiter())
        await Timer(100, "ps")
        at = None
        for d, x in evs:
            await Timer(300 + d * 700, "ps")
            check(at is not None or not done, "sv.wait returned at %r with %r, target %d", done, v, target)
            v["x"] = x
            ev.set()
            if x >= target and at is None:
                at = now()
            await Timer(100, "ps")
            eq(done, [at] if at is not None else [], "sv.wait for %d returned (value %d)" % (target, x))
        if at is None:
            t.kill()

    async def go():
        await sem()
        await forks()
        await waits()
    sim(go())
    # pure helpers
    for v, k, b in case["bits"]:
        eq(sv.get_bit(v, k), v >> k & 1, "get_bit(%d, %d)" % (v, k))
        eq(sv.set_bit(v, k, b), v & ~(1 << k) | b << k, "set_bit(%d, %d, %d)" % (v, k, b))
        eq(sv.clear_bit(v, k), v & ~(1 << k), "clear_bit(%d, %d)" % (v, k))
        eq(sv.get_vector_of_ones(k + 1), (2 << k) - 1, "get_vector_of_ones(%d)" % (k + 1))
        n = sv.clog2(v + 1)
        check(1 << n >= v + 1 and (n == 0 or 1 << n - 1 < v + 1), "clog2(%d) is %d", v + 1, n)
    text, fmt, want = [], [], []
    for f, v, neg in case["scan"]:
        v = -v if f == "d" and neg else v
        fmt.append("%" + f)
        text.append({"d": "%d" % v, "h": "0x%x" % v, "b": bin(v)[2:], "s": "w%x" % v}[f])
        want.append(text[-1] if f == "s" else v)
    eq(sv.sscanf(" ".join(text), " ".join(fmt)), want, "sscanf(%r, %r)" % (" ".join(text), " ".join(fmt)))
    cocotb.plusargs = dict(case["plus"])
    for a in case["ask"]:
        out = []
        have = a in case["plus"]
        eq(bool(sv.test_plusargs(a)), have, "test_plusargs(%r) with %r" % (a, case["plus"]))
        sv.value_plusargs(a + "=%s", out)
        eq(out, [case["plus"][a]] if have else [], "value_plusargs(%r) with %r" % (a, case["plus"]))

    class A:
        pass

    class B(A):
        pass
    class C(B):
        def __len__(self):
            return 0
    objs, types = [A(), B(), 5, "s", 0, "", C()], [A, B, int, str]
    o, t = objs[case["cast"][0]], types[case["cast"][1]]
    out = []
    eq(bool(sv.cast(out, o, t)), isinstance(o, t), "cast of %r to %s" % (o, t.__name__))
    check((len(out) == 1 and out[0] is o) if isinstance(o, t) else out == [], "cast of %r to %s stored %r", o, t.__name__, out)
    return {"nontrivial": st["blocked"] >= 2 or len(case["forks"]) >= 3, "ops": st["ops"], "blocked": int(st["blocked"] > 0)}
