from util import *

ID = "P05"
META = {
    "title": "Phase states advance in order, are announced, and can be waited for",
    "statement": "In every run each phase node goes through SCHEDULED, SYNCING, STARTED, EXECUTING, for task phases READY_TO_END (back to EXECUTING and READY_TO_END again for each extension), ENDED, CLEANUP and DONE, exactly once and in this order; it is SCHEDULED only after a predecessor and SYNCING only after all predecessors are DONE. Each change is announced once to every enabled UVMPhaseCb, right after the change, with the node, its new and its previous state; an objection raised there from STARTED to READY_TO_END prolongs the phase. wait_for_state(state, op), for every comparison and set of states and from any process, returns in the time step in which the condition first holds, at once if it does already, and never otherwise. Names, domain, schedule and run count of the node are right throughout.",
    "over": ["inputs", "schedules", "histories"],
    "quant": "all runs over 22 or more phase nodes with objections, extensions and callbacks, and all states, comparisons, starting points and numbers of waiters",
    "why": "No unit test runs phases; examples wait for one state of one phase and use no phase callbacks.",
    "files": ["src/uvm/base/uvm_phase.py", "src/uvm/base/uvm_task_phase.py", "src/uvm/base/uvm_domain.py"],
    "mech": [["UVMPhase.set_state / execute_phase / _wait_for_all_dropped / wait_for_self_and_siblings_to_drop", "src/uvm/base/uvm_phase.py"], ["UVMPhase.wait_for_state", "src/uvm/base/uvm_phase.py"], ["UVMPhaseCb.phase_state_change", "src/uvm/base/uvm_phase.py"]],
    "note": "Whole tests on a simulated kernel; the announced history of every node is checked and every wait compared with that history.",
}
RULE = "a wait that blocked came true, and a phase was extended or prolonged from a callback"
N = (60, 9000)
ASSUMPTIONS = ["no jumps or synchronized domains (not ported)", "the return of a node to EXECUTING after READY_TO_END is not announced (as in the reference), it shows in the next change's previous state"]
FN1 = ["build", "connect", "end_of_elaboration", "start_of_simulation"]
FN2 = ["extract", "check", "report", "final"]
RT = ["%s%s" % (a, b) for b in ("reset", "configure", "main", "shutdown") for a in ("pre_", "", "post_")]
SCHED, SYNC, START, EXEC, RTE, ENDED, CLEAN, DONE = 2, 4, 8, 16, 32, 64, 128, 256
STATES = [1, SCHED, SYNC, START, EXEC, RTE, ENDED, CLEAN, DONE]
OPS = ["EQ", "NE", "LT", "LTE", "GT", "GTE"]


def strategy():
    def fn(g):
        ph = lambda: g.pick(["main", "run"] + RT)
        act = [[ph(), g.i(0, 3)] for _ in range(g.i(0, 4))]
        rte = [[ph(), g.i(1, 2)] for _ in range(g.pick([0, 0, 1, 2, 3]))]
        cbs = [[ph(), g.pick([EXEC, START, RTE]), g.i(1, 3)] for _ in range(g.pick([0, 0, 1, 2]))]
        waits = []
        for _ in range(g.i(2, 12)):
            op = g.pick(OPS)
            st = g.pick(STATES)
            if op in ("EQ", "NE"):
                for _ in range(g.pick([0, 0, 1, 2])):
                    st |= g.pick(STATES)
            waits.append([g.pick(["start", "build", "late"]), g.i(0, 9), g.pick([0, 0, 1]), g.pick(FN1 + FN2 + ["run", "run", "main"] + RT), st, op])
        return {"act": act, "rte": rte, "cbs": cbs, "waits": waits, "dom": g.b(1, 3), "off": g.b(1, 4)}
    return gen(fn, 200)


def run(case):
    import cocotb
    import simkernel
    from cocotb.triggers import Timer
    from uvm import UVMComponent, UVMTest
    from uvm.base.uvm_domain import UVMDomain
    from uvm.base.uvm_callback import UVMCallbacks
    from uvm.base import uvm_object_globals as og
    from uvm.base.uvm_phase import UVMPhaseCb
    rep = Reports()
    log = []            # (node key, time, prev, state)
    nodes = {}
    drops, acts = {}, {}
    waits = []
    st = {"top": None, "blocked": 0, "ext": 0, "off": 0}
    now = simkernel.now
    used = {}

    def key(ph):
        return ph.get_domain_name(), ph.get_name()

    def hold(ph, obj, d):
        """An objection of the phase for d*10."""
        async def later():
            await Timer(d * 10)
            ph.drop_objection(obj)
        ph.raise_objection(obj)
        drops.setdefault(key(ph), []).append(now() + d * 10)
        cocotb.start_soon(later())

    class Cb(UVMPhaseCb):
        def phase_state_change(self, phase, change):
            if phase.get_phase_type() != og.UVM_PHASE_NODE:
                return
            k = key(phase)
            s = change.get_state()
            eq(s, phase.get_state(), "state of %s in its announcement" % (k,))
            check(change.jump_to() is None, "jump_to of %s", k)
            if s == og.UVM_PHASE_DORMANT:
                return
            nodes.setdefault(k, phase)
            check(nodes[k] is phase, "another node announced for %s", k)
            eq(phase.get_run_count(), 0 if s <= SYNC else 1, "run count of %s in state %s" % (k, s))
            log.append((k, now(), change.get_prev_state(), s))
            for i, (p, state, d) in enumerate(case["cbs"]):
                if p == k[1] and state == s and i not in used:
                    used[i] = 1
                    st["ext"] += 1
                    hold(phase, st["top"], d)

    class Off(UVMPhaseCb):
        def phase_state_change(self, phase, change):
            st["off"] += 1

    class Count(UVMPhaseCb):
        n = 0

        def phase_state_change(self, phase, change):
            if phase.get_phase_type() == og.UVM_PHASE_NODE and change.get_state() != og.UVM_PHASE_DORMANT:
                self.n += 1
                check(len(log) == self.n, "%s: %s announcements to the second callback, %s to the first", key(phase), self.n, len(log))
    cb, cnt, off = Cb("cb"), Count("count"), Off("off")

    async def waiter(w):
        _, _, dom, name, state, op = w
        d = doms[dom if name in RT else "c"]
        ph = d.find_by_name(name, 0)
        r = {"w": w, "key": key(ph), "t0": now(), "i0": len(log), "t1": None, "s0": ph.get_state()}
        waits.append(r)
        await ph.wait_for_state(state, getattr(og, "UVM_" + op))
        r["t1"], r["i1"], r["s1"] = now(), len(log), ph.get_state()
    doms = {}

    async def later(w):
        await Timer(w[1] * 10 + 5)
        cocotb.start_soon(waiter(w))

    class Kid(UVMComponent):
        pass

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        st["top"] = self
        kid = Kid("kid", self)
        doms["c"], doms[0] = UVMDomain.get_common_domain(), UVMDomain.get_uvm_domain()
        doms[1] = doms[0]
        if case["dom"]:
            doms[1] = UVMDomain("dom1")
            kid.set_domain(doms[1])
        for w in case["waits"]:
            if w[0] == "build":
                cocotb.start_soon(waiter(w))

    async def run_phase(self, phase):
        for w in case["waits"]:
            if w[0] == "start":
                cocotb.start_soon(waiter(w))
            elif w[0] == "late":
                cocotb.start_soon(later(w))
        for d in [d for p, d in case["act"] if p == "run"]:
            hold(phase, self, d)

    def mk(p):
        async def task(self, phase):
            for d in [d for q, d in case["act"] if q == p]:
                hold(phase, self, d)
        return task
    left = [list(x) for x in case["rte"]]

    def rte(self, phase):
        for x in left:
            if x[0] == phase.get_name():
                left.remove(x)
                st["ext"] += 1
                hold(phase, self, x[1])
                break
    mem = {"build_phase": build, "run_phase": run_phase, "phase_ready_to_end": rte}
    for p in RT:
        mem[p + "_phase"] = mk(p)
    top = comp_class("P05Top", mem, UVMTest)
    UVMCallbacks.add(None, cb)
    UVMCallbacks.add(None, cnt)
    if case["off"]:
        UVMCallbacks.add(None, off)
        off.callback_mode(0)

    async def after():
        await Timer(100)
    uvm_run(top, after)
    rep.none_bad()
    eq((st["off"], cnt.n), (0, len(log)), "announcements to the disabled and to the second callback")

    # histories
    hist, at = {}, {}
    for i, (k, t, prev, s) in enumerate(log):
        h = hist.setdefault(k, [(-1, 0, og.UVM_PHASE_DORMANT)])
        if prev == EXEC and h[-1][2] == RTE:
            h.append((h[-1][0], h[-1][1], EXEC))
        eq(prev, h[-1][2], "previous state announced for %s when it became %s" % (k, s))
        h.append((i, t, s))
        at.setdefault((k, s), []).append((i, t))
    names = [("common", p) for p in FN1 + ["run"] + FN2] + [("uvm", p) for p in RT] + ([("dom1", p) for p in RT] if case["dom"] else [])
    eq(sorted(hist), sorted(names), "nodes that ran")
    for k in names:
        got = [s for _, _, s in hist[k]]
        task = k[1] in RT + ["run"]
        n = got.count(RTE)
        body = [EXEC] + [RTE, EXEC] * (n - 1) + [RTE] if task else [EXEC]
        check(n >= 1 or not task, "%s was never READY_TO_END", k)
        eq(got, [1, SCHED, SYNC, START] + body + [ENDED, CLEAN, DONE], "states of %s" % (k,))
        ph = nodes[k]
        eq((ph.get_state(), ph.get_run_count()), (DONE, 1), "state and run count of %s after the run" % (k,))
        eq((ph.get_full_name(), ph.get_domain_name(), ph.get_schedule_name()),
           (("common." + k[1], "common", "") if k[0] == "common" else (k[0] + ".uvm_sched." + k[1], k[0], "uvm_sched")), "names of %s" % (k,))
        check(ph.get_domain() is {"common": doms["c"], "uvm": doms[0], "dom1": doms[1]}[k[0]], "domain of %s", k)
        t0, t1 = at[k, START][0][1], at[k, ENDED][0][1]
        ds = drops.get(k, [])
        check(all(d <= t1 for d in ds), "%s ended at %s, before its objections were dropped at %s", k, t1, ds)
        if task and k[1] not in ("run", "post_shutdown"):
            eq(t1, max(ds + [t0]), "end of %s" % (k,))
        elif not task:
            eq(t1, t0, "end of %s" % (k,))
    chains = [[("common", p) for p in FN1] + [(d, p) for p in RT] + [("common", p) for p in FN2] for d in (["uvm", "dom1"] if case["dom"] else ["uvm"])]
    chains.append([("common", p) for p in FN1 + ["run"] + FN2])
    for c in chains:
        for a, b in zip(c, c[1:]):
            check(at[a, DONE][0][0] < at[b, SYNC][0][0], "%s is SYNCING before %s is DONE", b, a)
            eq(at[a, DONE][0][1] <= at[b, SYNC][0][1], True, "times of %s and %s" % (a, b))
    for b in names[1:]:
        pre = [a for c in chains for a, x in zip(c, c[1:]) if x == b]
        check(any(at[a, DONE][0][0] < at[b, SCHED][0][0] for a in pre), "%s is SCHEDULED before any of %s is DONE", b, pre)
        eq(at[b, SYNC][0][1], max(at[a, DONE][0][1] for a in pre), "time %s is SYNCING" % (b,))

    # waits
    eq(len(waits), len([w for w in case["waits"]]) if waits else 0, "waits started") if all(w[0] != "late" for w in case["waits"]) else None
    for r in waits:
        mask, op = r["w"][4], r["w"][5]
        cond = {"EQ": lambda s: s & mask != 0, "NE": lambda s: s & mask == 0, "LT": lambda s: s < mask, "LTE": lambda s: s <= mask,
                "GT": lambda s: s > mask, "GTE": lambda s: s >= mask}[op]
        what = "wait_for_state(%s, %s) of %s at %s in state %s" % (mask, op, r["key"], r["t0"], r["s0"])
        if cond(r["s0"]):
            eq(r["t1"], r["t0"], what)
            continue
        hits = [(i, t) for i, t, s in hist[r["key"]] if i >= r["i0"] and cond(s)]
        if not hits:
            check(r["t1"] is None, "%s returned at %s", what, r["t1"])
            continue
        st["blocked"] += 1
        eq(r["t1"], hits[0][1], what)
        check(cond(r["s1"]), "%s returned in state %s", what, r["s1"])
        check(r["i1"] > hits[0][0], "%s returned before the state was announced", what)
    return {"nontrivial": st["blocked"] > 0 and st["ext"] > 0, "waits": len(waits), "blocked": st["blocked"], "extended": st["ext"]}
