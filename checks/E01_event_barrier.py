from util import *

ID = "E01"
META = {
    "title": "Events and barriers release exactly the processes they should, when they should",
    "statement": "For every timed history of waits, triggers, resets and cancels on a UVMEvent, wait_trigger returns at the next trigger (or waking reset) after it was called and never for an earlier one, wait_ptrigger also returns at once for a trigger of the same time step, and wait_on/wait_off return exactly when the state is on/off; data, trigger time, state and waiter count match the history, and every callback runs in order with any of them able to veto the trigger. A UVMBarrier holds each process until the number of waiting processes reaches its threshold (or it is reset with wakeup), then releases all of them, for all histories of waits, resets, cancels, threshold and auto-reset changes.",
    "over": ["histories", "schedules"],
    "quant": "all histories of waits of every kind by any number of processes, triggers with data, resets with and without wakeup, cancels, callback additions and removals, and for barriers all threshold and auto-reset changes, at equal and different times",
    "why": "No unit test runs an event or barrier; whether a waiter misses or double-counts a trigger depends on the order of waits and triggers over time.",
    "files": ["src/uvm/base/uvm_event.py", "src/uvm/base/uvm_barrier.py"],
    "mech": [["UVMEvent.trigger / wait_trigger / wait_ptrigger / wait_on / wait_off / reset", "src/uvm/base/uvm_event.py"], ["UVMBarrier.wait_for / reset / set_threshold", "src/uvm/base/uvm_barrier.py"]],
    "note": "Random timed histories against a reference model of waiter sets. Processes blocked at a reset without wakeup are not judged afterwards.",
}
RULE = "at least two processes were blocked at the same time and a later operation released some process"
N = (400, 40000)
KINDS = ["trig", "trig", "ptrig", "on", "off", "trigd", "ptrigd", "ond", "offd"]


def e_op(g):
    k = g.i(0, 15)
    if k <= 6:
        return ["wait", g.pick(KINDS)]
    if k <= 10:
        return ["trigger", g.pick([None, 1, "x", 2])]
    if k == 11:
        return ["reset", g.b()]
    if k == 12:
        return ["cancel"]
    if k == 13:
        return ["addcb", g.i(0, 2), g.b()]
    if k == 14:
        return ["delcb", g.i(0, 2)]
    return ["veto", g.i(0, 2), g.b(1, 3)]


def b_op(g):
    k = g.i(0, 11)
    if k <= 7:
        return ["wait"]
    if k == 8:
        return ["reset", g.b(2, 3)]
    if k == 9:
        return ["thr", g.i(0, 4)]
    if k == 10:
        return ["auto", g.b()]
    return ["kill"]


def case_(g):
    bar = g.b(1, 3)
    ops = []
    for _ in range(g.i(3, 30)):
        ops.append([g.pick([0, 0, 1, 2])] + (b_op(g) if bar else e_op(g)))
    return {"bar": bar, "thr": g.i(0, 4), "ops": ops}


def strategy():
    return gen(case_, 300)


def run(case):
    from uvm.base.uvm_event import UVMEvent
    from uvm.base.uvm_barrier import UVMBarrier
    from uvm.base.sv import sv
    from cocotb.triggers import Timer, NullTrigger
    import cocotb
    rep = Reports()
    st = {"blocked": 0, "released": 0, "waits": 0}
    woke = {}               # waiter -> (slot, value)
    tasks = {}
    slot = [0]

    async def settle():
        for _ in range(6):
            await NullTrigger()

    def launch(i, coro):
        async def body():
            r = await coro
            woke[i] = (slot[0], r)
        tasks[i] = cocotb.start_soon(body())

    lost, fresh = set(), set()

    def verify(model, what):
        """model: waiter -> (slot, value) of everything released so far"""
        check(not any(i in woke for i in fresh), "%s: a reset without wakeup released processes %r", what, fresh)
        fresh.clear()
        for i in tasks:
            if i in lost:
                continue
            check((i in woke) == (i in model), "%s: process %d is %s", what, i,
                  "released too early" if i in woke else "still blocked")
            if i in model:
                eq(woke[i], model[i], "%s: process %d released at, with" % (what, i))

    async def event():
        e = UVMEvent("e")
        m = {"on": False, "at": None, "data": None, "time": 0, "n": 0}
        blocked = {"trig": [], "on": [], "off": []}
        rel = {}
        cblog, cbs, veto = [], [], {0: False, 1: False, 2: False}

        class CB:
            def __init__(self, i):
                self.i = i

            def pre_trigger(self, ev, data=None):
                cblog.append(("pre", self.i, ev is e, data))
                return veto[self.i]

            def post_trigger(self, ev, data=None):
                cblog.append(("post", self.i, ev is e, data))
        CBS = [CB(i) for i in range(3)]
        for j, (dt, *o) in enumerate(case["ops"]):
            if dt:
                await Timer(dt * 1000, "ps")
                slot[0] += dt
            want_log = []
            cblog.clear()
            now = slot[0]
            what = "op %d %r" % (j, o)

            def release(kind, value=None):
                for i, has in blocked[kind]:
                    rel[i] = (now, m["data"] if has else None)
                    st["released"] += 1
                blocked[kind] = []
            if o[0] == "wait":
                st["waits"] += 1
                k = o[1]
                data = k in ("trigd", "ptrigd")
                if k == "trig":
                    launch(j, e.wait_trigger())
                elif k == "trigd":
                    launch(j, e.wait_trigger_data())
                elif k == "ptrig":
                    launch(j, e.wait_ptrigger())
                elif k == "ptrigd":
                    launch(j, e.wait_ptrigger_data([]))
                elif k in ("on", "ond"):
                    launch(j, e.wait_on(k == "ond"))
                else:
                    launch(j, e.wait_off(k == "offd"))
                if k[0] == "p" and m["at"] == now:
                    rel[j] = (now, m["data"] if data else None)
                elif k[0] in "pt":
                    blocked["trig"].append((j, data))
                    m["n"] += 1
                elif m["on"] == (k[:2] == "on"):
                    rel[j] = (now, None)
                else:
                    blocked[k[:-1] if k[-1] == "d" else k].append((j, False))
                    m["n"] += 1
            elif o[0] == "trigger":
                v = any(veto[i] for i in cbs)
                want_log = [("pre", i, True, o[1]) for i in cbs]
                if not v:
                    want_log += [("post", i, True, o[1]) for i in cbs]
                    m.update(on=True, at=now, data=o[1], time=sv.realtime(), n=0)
                    release("trig")
                    release("on")
                e.trigger(o[1])
            elif o[0] == "reset":
                if o[1]:
                    release("trig")
                else:
                    lost.update(i for i, _ in blocked["trig"])
                    fresh.update(i for i, _ in blocked["trig"])
                    blocked["trig"] = []
                m.update(on=False, at=None, time=0, n=0)
                release("off")
                e.reset(o[1])
            elif o[0] == "cancel":
                m["n"] = max(0, m["n"] - 1)
                e.cancel()
            elif o[0] == "addcb":
                if o[1] not in cbs:
                    cbs.append(o[1]) if o[2] else cbs.insert(0, o[1])
                e.add_callback(CBS[o[1]], o[2])
            elif o[0] == "delcb":
                if o[1] in cbs:
                    cbs.remove(o[1])
                e.delete_callback(CBS[o[1]])
            else:
                veto[o[1]] = o[2]
            st["blocked"] = max(st["blocked"], sum(len(b) for b in blocked.values()))
            await settle()
            eq(cblog, want_log, what + ": callbacks")
            verify(rel, what)
            eq(bool(e.is_on()), m["on"], what + ": is_on")
            eq(bool(e.is_off()), not m["on"], what + ": is_off")
            eq(e.get_num_waiters(), m["n"], what + ": get_num_waiters")
            eq(e.get_trigger_time(), m["time"], what + ": get_trigger_time")
            if m["data"] is not None:
                eq(e.get_trigger_data(), m["data"], what + ": get_trigger_data")

    async def barrier():
        b = UVMBarrier("b", case["thr"])
        m = {"thr": case["thr"], "auto": True, "at": False}
        blocked = []
        rel = {}
        for j, (dt, *o) in enumerate(case["ops"]):
            if dt:
                await Timer(dt * 1000, "ps")
                slot[0] += dt
            now = slot[0]
            what = "op %d %r" % (j, o)

            def release():
                for i in blocked:
                    rel[i] = (now, None)
                    st["released"] += 1
                blocked.clear()
            if o[0] == "wait":
                st["waits"] += 1
                launch(j, b.wait_for())
                if m["at"]:
                    rel[j] = (now, None)
                else:
                    blocked.append(j)
                    if len(blocked) >= m["thr"]:
                        m["at"] = not m["auto"]
                        release()
            elif o[0] == "reset":
                m["at"] = False
                if o[1]:
                    release()
                else:
                    lost.update(blocked)
                    fresh.update(blocked)
                    blocked.clear()
                b.reset(int(o[1]))
            elif o[0] == "thr":
                m["thr"] = o[1]
                if o[1] <= len(blocked):
                    m["at"] = False
                    release()
                b.set_threshold(o[1])
            elif o[0] == "auto":
                m["auto"], m["at"] = o[1], False
                b.set_auto_reset(int(o[1]))
            elif blocked:
                i = blocked.pop(0)
                lost.add(i)
                tasks[i].kill()
                b.cancel()
            st["blocked"] = max(st["blocked"], len(blocked))
            await settle()
            verify(rel, what)
            eq(b.get_num_waiters(), len(blocked), what + ": get_num_waiters")
            eq(b.get_threshold(), m["thr"], what + ": get_threshold")
    sim(barrier() if case["bar"] else event())
    bad = [m for m in rep.msgs if m[0] >= 1 and m[1] not in ("CBRGED", "CBNTFD")]
    check(not bad, "unexpected report %r", bad[:2])
    return {"nontrivial": st["blocked"] >= 2 and st["released"] > 0, "waits": st["waits"], "released": st["released"]}
