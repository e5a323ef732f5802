from util import *

ID = "P01"
META = {
    "title": "Common phases run in order, once per component, top-down or bottom-up",
    "statement": "In every run over any component tree the nine common phases execute strictly in UVM order, each component's phase method runs exactly once per phase, and no component starts a phase before every component finished the previous one. Build and final visit a parent before its children, the other function phases visit children before their parent, and for every phase each component gets phase_started before and phase_ended after all phase methods, with the phase in the matching state. Function phases consume no simulation time.",
    "over": ["configurations", "histories"],
    "quant": "all component trees (children created in constructors, in build_phase, under arbitrary names), subsets of implemented phase methods, objection patterns in the run phases, with and without phase tracing, phase methods that read the hierarchy (print_topology, find_all, child iteration)",
    "why": "Tests run a handful of fixed trees; ordering has to hold for each tree shape and creation style and for every component at once.",
    "files": ["src/uvm/base/uvm_phase.py", "src/uvm/base/uvm_topdown_phase.py", "src/uvm/base/uvm_bottomup_phase.py", "src/uvm/base/uvm_task_phase.py", "src/uvm/base/uvm_common_phases.py", "src/uvm/base/uvm_domain.py", "src/uvm/base/uvm_root.py"],
    "mech": [["UVMPhase.execute_phase / m_run_phases", "src/uvm/base/uvm_phase.py"], ["traverse", "src/uvm/base/uvm_topdown_phase.py, uvm_bottomup_phase.py, uvm_task_phase.py"], ["UVMRoot.run_test", "src/uvm/base/uvm_root.py"]],
    "note": "Whole runs of random component trees on a pure-Python simulation kernel; the event log is compared with the phase order rules.",
}
RULE = "the tree has at least three components on at least two levels below the test"
N = (110, 9000)
COMMON = ["build", "connect", "end_of_elaboration", "start_of_simulation", "run", "extract", "check", "report", "final"]
NAMES = ["a", "b", "ab", "u[0]", "u[1]", "x1", "agent", "drv"]


def node(g, depth):
    n = {"name": "", "how": g.pick(["build", "new"]), "impl": [i for i in range(9) if g.b(3, 4)], "run": g.i(0, 3), "kids": [], "look": [g.pick(COMMON), g.i(0, 3)],
         "hooks": g.b(3, 4)}
    if depth:
        names = g.perm(NAMES)
        for k in range(g.i(1 if depth == 4 else 0, 4 if depth > 2 else 2)):
            c = node(g, depth - 1)
            c["name"] = names[k]
            n["kids"].append(c)
    return n


def strategy():
    return gen(lambda g: {"trace": g.b(1, 6), "tree": node(g, 4)}, 700)


def run(case):
    from uvm import UVMComponent, UVMTest
    from uvm.base.uvm_object_globals import (UVM_PHASE_STARTED, UVM_PHASE_EXECUTING, UVM_PHASE_ENDED, UVM_PHASE_READY_TO_END)
    from cocotb.triggers import Timer
    if case["trace"]:
        set_args(["+UVM_PHASE_TRACE"])
    rep = Reports()
    log = []            # (time, phase, comp path, kind)
    comps = {}          # path -> spec
    problems = []

    def note(comp, phase, kind, state):
        log.append((simkernel.now(), phase.get_name(), comp.get_full_name(), kind))
        if phase.get_state() != state:
            problems.append("%s of %s in phase %s: the phase is in state %r" % (kind, comp.get_full_name(), phase.get_name(), phase.get_state()))

    cnt = [0]

    def look(comp, ph, spec):
        """Reading the hierarchy from a phase method, as testbenches do."""
        if spec["look"][0] != ph:
            return
        from uvm.base.uvm_coreservice import UVMCoreService
        top = UVMCoreService.get().get_root()
        k = spec["look"][1]
        if k == 1:
            top.print_topology()
        elif k == 2:
            top.find_all("*", [], comp)
        elif k == 3:
            c = comp.get_parent() or comp
            c = c.get_first_child()
            while c is not None:
                c = comp.get_parent().get_next_child() if comp.get_parent() is not None else comp.get_next_child()

    def make(spec, top):
        for k in spec["kids"]:
            make(k, False)
        mem = {}

        def init(self, name="", parent=None):
            UVMComponent.__init__(self, name, parent)
            comps[self.get_full_name()] = spec
            for k in spec["kids"]:
                if k["how"] == "new":
                    k["cls"](k["name"], self)
        mem["__init__"] = init

        def fphase(ph):
            def f(self, phase):
                note(self, phase, "exec", UVM_PHASE_EXECUTING)
                look(self, ph, spec)
                if ph == "build":
                    for k in spec["kids"]:
                        if k["how"] == "build":
                            k["cls"](k["name"], self)
            return f
        for i, ph in enumerate(COMMON):
            if ph == "run":
                async def rp(self, phase):
                    note(self, phase, "exec", UVM_PHASE_EXECUTING)
                    look(self, "run", spec)
                    if spec["run"]:
                        phase.raise_objection(self)
                        await Timer(spec["run"] * 10)
                        phase.drop_objection(self)
                    log.append((simkernel.now(), "run", self.get_full_name(), "exit"))
                if i in spec["impl"]:
                    mem["run_phase"] = rp
            elif i in spec["impl"] or ph == "build":
                mem[ph + "_phase"] = fphase(ph)
        if spec["hooks"]:
            mem["phase_started"] = lambda self, phase: note(self, phase, "started", UVM_PHASE_STARTED)
            mem["phase_ended"] = lambda self, phase: note(self, phase, "ended", UVM_PHASE_ENDED)
            mem["phase_ready_to_end"] = lambda self, phase: note(self, phase, "ready", UVM_PHASE_READY_TO_END)
        cnt[0] += 1
        spec["cls"] = comp_class("Vp%d" % cnt[0], mem, UVMTest if top else UVMComponent)
    make(case["tree"], True)
    uvm_run(case["tree"]["cls"])
    check(not problems, "%s", problems[:2])
    rep.none_bad()
    # expected tree
    paths = {}

    def walk(spec, path):
        paths[path] = spec
        for k in spec["kids"]:
            walk(k, path + "." + k["name"])
    walk(case["tree"], "uvm_test_top")
    eq(sorted(comps), sorted(paths), "components created")
    end = max([0] + [s["run"] * 10 for s in paths.values() if 4 in s["impl"]])
    pos = {}
    for i, (t, ph, path, kind) in enumerate(log):
        pos.setdefault((ph, path, kind), []).append(i)
    spans = []
    for i, ph in enumerate(COMMON):
        ex = []
        for path, s in paths.items():
            has = i in s["impl"] or ph == "build"
            got = len(pos.get((ph, path, "exec"), []))
            eq(got, 1 if has else 0, "executions of the %s phase of %s" % (ph, path))
            if s["hooks"]:
                created_before = not (ph == "build" and path != "uvm_test_top" and any_build(paths, path))
                eq(len(pos.get((ph, path, "ended"), [])), 1, "phase_ended calls for %s of %s" % (ph, path))
                st = len(pos.get((ph, path, "started"), []))
                eq(st, 1 if created_before else 0, "phase_started calls for %s of %s" % (ph, path))
            if has:
                ex.append(path)
        idx = [k for k, e in enumerate(log) if e[1] == ph]
        if idx:
            spans.append((ph, min(idx), max(idx)))
        first_exec = min([pos[(ph, p, "exec")][0] for p in ex], default=None)
        last_exec = max([pos[(ph, p, "exec")][0] for p in ex], default=None)
        for k in idx:
            if first_exec is None:
                break
            if log[k][3] == "started":
                check(k < first_exec, "phase_started of %s for %s after the phase began executing", log[k][2], ph)
            if log[k][3] == "ended":
                check(k > last_exec, "phase_ended of %s for %s before all components executed", log[k][2], ph)
        for p in ex:
            par = p.rpartition(".")[0]
            while par:
                if par in ex and ph != "run":
                    a, b = pos[(ph, par, "exec")][0], pos[(ph, p, "exec")][0]
                    check((a < b) == (ph in ("build", "final")), "%s phase: wrong order of %s and its descendant %s", ph, par, p)
                par = par.rpartition(".")[0]
        for k in idx:
            t, _, path, kind = log[k]
            if kind == "exit":
                continue
            want = 0 if i < 4 or (i == 4 and kind != "ended" and kind != "ready") else end
            eq(t, want, "time of %s in the %s phase of %s" % (kind, ph, path))
    for (p1, a1, b1), (p2, a2, b2) in zip(spans, spans[1:]):
        check(b1 < a2, "phase %s began before phase %s was over", p2, p1)
    depth = max(p.count(".") for p in paths)
    return {"nontrivial": len(paths) >= 4 and depth >= 2, "components": len(paths)}


def any_build(paths, path):
    """True if the component or an ancestor (below the test) is created in build_phase."""
    while path != "uvm_test_top":
        if paths[path]["how"] == "build":
            return True
        path = path.rpartition(".")[0]
    return False
