from util import *

ID = "P04"
META = {
    "title": "User-defined phases and schedules take the place they were added to",
    "statement": "For every sequence of phases and whole schedules added to the run-time schedule (after, before, after-and-before, with an existing phase, or appended) and function phases added to the common domain, each phase executes exactly once, starts only when all phases ordered before it ended, and otherwise starts and ends as early as its own and its sibling phases' objections allow. A phase implementation replaced for a component, or for its subtree, is used there and nowhere else. The ordering queries (is_before, is_after, find, find_by_name) agree with that order.",
    "over": ["configurations", "histories"],
    "quant": "all sequences of insertions into the phase graph, by phase type or by node, with nested schedules, and all objection durations",
    "why": "No test inserts more than a single custom phase; the graph rewiring depends on the whole insertion history.",
    "files": ["src/uvm/base/uvm_phase.py", "src/uvm/base/uvm_domain.py", "src/uvm/base/uvm_task_phase.py"],
    "mech": [["UVMPhase.add / find / is_before / is_after / get_predecessors_for_successors", "src/uvm/base/uvm_phase.py"]],
    "note": "Random insertion histories compared with a reference graph, both by queries and by the order and times of an actual run.",
}
RULE = "at least two insertions relative to other phases, at least one of them parallel or relative to an inserted phase"
N = (80, 8000)
RT = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure",
      "pre_main", "main", "post_main", "pre_shutdown", "shutdown", "post_shutdown"]
FN = ["build", "connect", "end_of_elaboration", "start_of_simulation", "extract", "check", "report", "final"]


def add_op(g):
    k = g.i(0, 6)
    how = ["after", "before", "with", "after", "between", "with", "append"][k]
    return [how, g.i(0, 40), g.i(1, 6), g.b(), g.i(0, 3) if g.b(1, 3) else 0]


def strategy():
    return gen(lambda g: {"ops": g.some(1, 6, lambda: add_op(g)), "fn": [[g.pick(["after", "before"]), g.i(0, 7)] for _ in range(g.i(0, 2))],
                          "dur": [[g.i(0, 3) and g.i(0, 20) for _ in range(2)] for _ in range(40)], "q": [[g.i(0, 60), g.i(0, 60)] for _ in range(20)],
                          "imps": [[g.i(0, 30), g.i(0, 2), g.b()] for _ in range(g.i(0, 3))]}, 400)


def run(case):
    from uvm import UVMComponent, UVMTest
    from uvm.base.uvm_domain import UVMDomain
    from uvm.base.uvm_phase import UVMPhase
    from uvm.base.uvm_task_phase import UVMTaskPhase
    from uvm.base.uvm_topdown_phase import UVMTopdownPhase
    from uvm.base.uvm_bottomup_phase import UVMBottomupPhase
    from uvm.base.uvm_object_globals import UVM_PHASE_SCHEDULE
    import uvm.base.uvm_runtime_phases as RP
    import uvm.base.uvm_common_phases as CP
    from cocotb.triggers import Timer
    rep = Reports()
    common = UVMDomain.get_common_domain()
    sched = UVMDomain.get_uvm_schedule()
    imp = {}
    for n in RT:
        imp[n] = getattr(RP, "UVM" + "".join(x.capitalize() for x in n.split("_")) + "Phase").get()
    for n, c in zip(FN, ["Build", "Connect", "EndOfElaboration", "StartofSimulation", "Extract", "Check", "Report", "Final"]):
        imp[n] = getattr(CP, "UVM%sPhase" % c).get()
    # reference graph of the run-time schedule; virtual nodes are tuples
    succ, pred = {}, {}

    def edge(a, b):
        succ.setdefault(a, set()).add(b)
        pred.setdefault(b, set()).add(a)

    def cut(a, b):
        succ[a].discard(b)
        pred[b].discard(a)
    chain = [("begin",)] + RT + [("end",)]
    for a, b in zip(chain, chain[1:]):
        edge(a, b)
    order = list(RT)              # real phases, creation order
    nm = [0]

    class VTask(UVMTaskPhase):
        async def exec_task(self, comp, phase):
            if hasattr(comp, 'do_task'):
                await comp.do_task(phase)

    class VTop(UVMTopdownPhase):
        def exec_func(self, comp, phase):
            if hasattr(comp, 'do_func'):
                comp.do_func(phase)

    class VBot(UVMBottomupPhase):
        def exec_func(self, comp, phase):
            if hasattr(comp, 'do_func'):
                comp.do_func(phase)

    def reach(a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False
    def dsucc(x):
        out = set()
        for s in succ.get(x, ()):
            out |= {s} if isinstance(s, str) else (dsucc(s) if s != ("end",) else {"<end>"})
        return out
    rel = par = 0
    for how, ref, skip, by_node, nested in case["ops"]:
        nm[0] += 1
        name = "vp%d" % nm[0]
        if nested:
            new = UVMPhase(name, UVM_PHASE_SCHEDULE)
            b, e = ("b", name), ("e", name)
            inner = []
            for i in range(nested):
                p = VTask("%s_%d" % (name, i))
                new.add(p)
                imp[p.get_name()] = p
                inner.append(p.get_name())
            seq = [b] + inner + [e]
            for x, y in zip(seq, seq[1:]):
                edge(x, y)
        else:
            new = imp[name] = VTask(name)
            b = e = name
            inner = [name]

        def handle(n):
            return sched.find(imp[n]) if by_node else imp[n]
        r = order[ref % len(order)]
        if how == "between":
            # (not into the first position of an adjacent nested schedule from outside of it)
            later = [x for x in order if reach(r, x) and not (x not in succ[r] and x in dsucc(r))]
            if not later:
                how = "after"
            else:
                r2 = later[skip % len(later)]
        if how == "append":
            sched.add(new)
            for p in list(pred[("end",)]):
                cut(p, ("end",))
                edge(p, b)
            edge(e, ("end",))
        else:
            rel += 1
            par += how in ("with", "between") or r.startswith("vp")
            if how == "with":
                sched.add(new, with_phase=handle(r))
                for p in pred[r]:
                    edge(p, b)
                for s in succ[r]:
                    edge(e, s)
            elif how == "after":
                sched.add(new, after_phase=handle(r))
                for s in list(succ[r]):
                    cut(r, s)
                    edge(e, s)
                edge(r, b)
            elif how == "before":
                sched.add(new, before_phase=handle(r))
                for p in list(pred[r]):
                    cut(p, r)
                    edge(p, b)
                edge(e, r)
            else:
                sched.add(new, after_phase=handle(r), before_phase=handle(r2))
                if r2 in succ[r]:
                    cut(r, r2)
                edge(r, b)
                edge(e, r2)
        order += inner
    # function phases in the common domain: a chain
    fchain = list(FN[:4]) + ["run"] + list(FN[4:])
    for how, ref in case["fn"]:
        nm[0] += 1
        name = "vf%d" % nm[0]
        r = FN[ref % 8]
        imp[name] = (VTop if nm[0] % 2 else VBot)(name)
        if how == "after" or r == "build":
            common.add(imp[name], after_phase=imp[r])
            fchain.insert(fchain.index(r) + 1, name)
        else:
            common.add(imp[name], before_phase=imp[r])
            fchain.insert(fchain.index(r), name)
    real = [x for x in order]

    def ordered(a, b):
        if a in order and b in order:
            return reach(a, b)
        fa = fchain.index(a) if a in fchain else fchain.index("run")
        fb = fchain.index(b) if b in fchain else fchain.index("run")
        return fa < fb
    allp = order + [f for f in fchain if f != "run"]
    node = {}
    for n in allp:
        node[n] = (sched if n in order else common).find(imp[n], False)
        check(node[n] is not None, "find() does not find phase %s", n)
        eq(node[n].get_name(), n, "name of the found phase")
        f = common.find_by_name(n, False)
        check(f is node[n], "find_by_name(%s) returned %s", n, f)
    for a, b in case["q"]:
        a, b = allp[a % len(allp)], allp[b % len(allp)]
        eq(bool(node[a].is_before(node[b])), a != b and ordered(a, b), "%s.is_before(%s)" % (a, b))
        # in scope: the phases of the same domain
        near = a == b or ((ordered(a, b) or ordered(b, a)) and (a in order) == (b in order))
        check(node[a].find(imp[b], True) is (node[b] if near else None) or a == b, "find(%s) from %s, staying in scope", b, a)
        check(node[a].find(node[b], True) is (node[b] if near else None), "find() of the node of %s from %s, staying in scope", b, a)
        check(node[a].find_by_name(b, True) is (node[b] if near else None), "find_by_name(%s) from %s, staying in scope", b, a)
        eq(bool(node[a].is_after(imp[b])), a != b and ordered(b, a), "%s.is_after(%s)" % (a, b))
    # phase implementations replaced for a component or its subtree
    alts = {}

    class AltTask(UVMTaskPhase):
        async def exec_task(self, comp, phase):
            note(comp, phase, "alt")
            await do_task(comp, phase)

    class AltFunc(UVMTopdownPhase):
        def exec_func(self, comp, phase):
            note(comp, phase, "alt")
            note(comp, phase, "exec")
    PATH = ["uvm_test_top", "uvm_test_top.k", "uvm_test_top.k.j"]
    for r, level, hier in case["imps"]:
        n = allp[r % len(allp)]
        if n == "build":
            continue
        alts[n] = (level, hier)

    def set_imps(self, phase):
        note(self, phase, "exec")
        tree = [self, kid("k", self)]
        tree.append(leaf("j", tree[1]))
        for n, (level, hier) in alts.items():
            comp = tree[level]
            comp.set_phase_imp(imp[n], AltTask(n) if n in order else AltFunc(n), hier)
    # run it
    dur = {n: case["dur"][i % 40] for i, n in enumerate(order)}
    log = []

    def note(comp, phase, kind):
        log.append((simkernel.now(), phase.get_name(), comp.get_full_name(), kind))

    async def do_task(self, phase):
        note(self, phase, "exec")
        d = dur[phase.get_name()][self.idx] if self.idx < 2 else 0
        if d:
            phase.raise_objection(self)
            await Timer(d)
            phase.drop_objection(self)
    mem = {"do_task": do_task, "do_func": lambda self, phase: note(self, phase, "exec"),
           "phase_ended": lambda self, phase: note(self, phase, "ended"),
           "phase_started": lambda self, phase: note(self, phase, "started"), "idx": 0}
    for n in RT:
        mem[n + "_phase"] = do_task
    for n in FN:
        mem[n + "_phase"] = lambda self, phase: note(self, phase, "exec")
    kid = comp_class("Vk", dict(mem, idx=1))
    leaf = comp_class("Vj", dict(mem, idx=2))
    mem["build_phase"] = set_imps
    top = comp_class("Vt", mem, UVMTest)
    uvm_run(top)
    rep.none_bad()
    pos = {}
    for i, (t, ph, path, kind) in enumerate(log):
        pos.setdefault((ph, kind), []).append((t, i, path))

    # siblings: phases with a common direct successor (through virtual nodes)
    ds = {x: dsucc(x) for x in real}

    def dpred(x):
        out = set()
        for p in pred.get(x, ()):
            out |= {p} if isinstance(p, str) else dpred(p)
        return out
    # start/end times by iterating to the fixpoint (the graph is acyclic)
    S = {x: 0 for x in real}
    for _ in range(3 * len(real) + 3):
        D = {x: S[x] + max(dur[x]) for x in real}
        E = {x: max(D[y] for y in real if y == x or ds[x] & ds[y]) for x in real}
        S2 = {x: max([0] + [E[p] for p in dpred(x)]) for x in real}
        if S2 == S:
            break
        S = S2
    for x in allp:
        ex = pos.get((x, "exec"), [])
        eq(len(ex), 3, "executions of phase %s" % x)
        want = []
        if x in alts:
            level, hier = alts[x]
            want = PATH[level:] if hier else [PATH[level]]
        eq(sorted(p for _, _, p in pos.get((x, "alt"), [])), want, "components using their replaced implementation of phase %s" % x)
        eq(len(pos[(x, "ended")]), 3, "phase_ended calls of phase %s" % x)
        if x in real:
            eq([t for t, _, _ in ex], [S[x]] * 3, "start time of phase %s" % x)
            eq([t for t, _, _ in pos[(x, "ended")]], [E[x]] * 3, "end time of phase %s" % x)
    for a in allp:
        for b in allp:
            if a != b and ordered(a, b):
                check(max(p[1] for p in pos[(a, "ended")]) < min(p[1] for p in pos[(b, "exec")]),
                      "phase %s executed before %s, which precedes it, ended", b, a)
    return {"nontrivial": rel >= 2 and par >= 1, "inserted": len(order) - 12, "relative": rel}
