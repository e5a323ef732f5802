from util import *

ID = "P02"
META = {
    "title": "Run-time phases end exactly when their objections allow",
    "statement": "The twelve run-time phases of every domain execute in order, in parallel with run_phase, each starting as soon as its predecessor ended; a task phase ends exactly when all objections to it, including drain times and objections raised in phase_ready_to_end, have been dropped (immediately if none was raised), and run_phase together with the last run-time phases of all domains ends when all of them can. Every component executes each task phase of its own domain exactly once, all in the same time step, and extraction starts only after all task phases ended.",
    "over": ["configurations", "schedules", "histories"],
    "quant": "all component trees, assignments of subtrees to user domains, objection durations, per-component drain times and re-raises in phase_ready_to_end (up to the iteration limit)",
    "why": "Tests hold objections in one phase with one timing; the end time of each phase depends on all components', ancestors' drain times' and domains' combined timing.",
    "files": ["src/uvm/base/uvm_phase.py", "src/uvm/base/uvm_task_phase.py", "src/uvm/base/uvm_runtime_phases.py", "src/uvm/base/uvm_domain.py", "src/uvm/base/uvm_objection.py", "src/uvm/base/uvm_component.py"],
    "mech": [["UVMPhase._wait_for_all_dropped / wait_for_self_and_siblings_to_drop / execute_phase", "src/uvm/base/uvm_phase.py"], ["UVMObjection drain forking", "src/uvm/base/uvm_objection.py"], ["UVMComponent.set_domain / define_domain", "src/uvm/base/uvm_component.py"]],
    "note": "Random trees, domains and objection timings; every phase start and end time and the log of each component is compared with a timing model.",
}
RULE = "at least two task phases held objections and one of them had a drain time or a ready-to-end extension"
N = (60, 6000)
RT = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure",
      "pre_main", "main", "post_main", "pre_shutdown", "shutdown", "post_shutdown"]
NAMES = ["a", "b", "c", "d"]


TAIL = ("run", "post_shutdown")


def node(g, depth, tail):
    # tail: extensions (and no drain times) in the phases that end together
    n = {"kids": [], "dom": 0 if g.b(4, 5) else g.i(0, 2), "act": {}, "drain": {}, "rte": {}}
    for ph in ["run"] + RT:
        if g.b(1, 4):
            n["act"][ph] = g.i(1, 30)
        if g.b(1, 6) and not (tail and ph in TAIL):
            n["drain"][ph] = g.i(1, 20)
        if g.b(1, 12) and (tail or ph not in TAIL):
            n["rte"][ph] = g.some(1, 3, lambda: g.i(1, 12))
    n["late"] = {ph: [g.i(1, 80), g.i(1, 30)] for ph in TAIL if tail and g.b(1, 3)}
    if depth:
        n["kids"] = [node(g, depth - 1, tail) for _ in range(g.i(1 if depth == 3 else 0, 2))]
    return n


def strategy():
    return gen(lambda g: node(g, 3, g.b()), 900)


def run(case):
    from uvm import UVMComponent, UVMTest
    from uvm.base.uvm_domain import UVMDomain
    from uvm.base.uvm_object_globals import UVM_PHASE_EXECUTING
    from cocotb.triggers import Timer
    import cocotb
    rep = Reports()
    log = []            # (time, domain, phase, comp path, kind)
    doms = {}
    lates = []          # end times of the objections raised later in these phases
    drops = []          # end times of the extensions of the phases that end together
    open_ = {}          # (domain, phase) -> raise times of the outstanding objections
    early = []
    comp_dom = {}
    paths = {}
    case["dom"] = 0
    res = []            # each late objection has its own residue modulo 4, all other times are multiples of 4

    def walk(spec, path, dom):
        spec["path"] = path
        # a subtree assigned to a user domain keeps it for all its descendants
        spec["d"] = dom = spec["dom"] or dom
        paths[path] = spec
        spec["res"] = {}
        for ph in TAIL:
            if ph in spec["late"] and len(res) < 3:
                res.append(path)
                spec["res"][ph] = len(res)
        for i, k in enumerate(spec["kids"]):
            walk(k, path + "." + NAMES[i], dom)
    walk(case, "uvm_test_top", 0)
    used = sorted(set(s["d"] for s in paths.values()) - {0})
    cnt = [0]

    def note(comp, phase, kind):
        log.append((simkernel.now(), phase.get_domain_name(), phase.get_name(), comp.get_full_name(), kind))

    def hold(comp, phase, why):
        open_.setdefault((phase.get_domain_name(), phase.get_name()), []).append(simkernel.now())
        phase.raise_objection(comp, why)

    def release(comp, phase, why):
        open_[phase.get_domain_name(), phase.get_name()].pop(0)
        phase.drop_objection(comp, why)

    def late_of(spec, ph):
        return spec["late"].get(ph) and spec["late"][ph] + [spec["res"][ph]] if ph in spec["res"] else None

    async def late(comp, phase, l):
        t0, d, res = l
        await Timer(4 * t0 + res)
        if phase.get_state() == UVM_PHASE_EXECUTING:
            # only while another objection keeps the phase from ending
            if any(open_[k] for k in open_ if k[1] in TAIL):
                hold(comp, phase, "late")
                lates.append(simkernel.now() + 4 * d)
                await Timer(4 * d)
                release(comp, phase, "late")

    def make(spec, top):
        for k in spec["kids"]:
            make(k, False)
        mem = {}

        def init(self, name="", parent=None):
            UVMComponent.__init__(self, name, parent)
            self.rte = {}

        def build_phase(self, phase):
            self.kids = [k["cls"](NAMES[i], self) for i, k in enumerate(spec["kids"])]

        def connect_phase(self, phase):
            # bottom-up, so an inner domain assignment is made after... the outer one is made by the parent first
            pass

        def end_of_elaboration_phase(self, phase):
            if not top:
                return

            def assign(comp, sp):
                if sp["dom"]:
                    if sp["dom"] not in doms:
                        doms[sp["dom"]] = UVMDomain("dom%d" % sp["dom"])
                    comp.set_domain(doms[sp["dom"]])
                for c, k in zip(comp.kids, sp["kids"]):
                    assign(c, k)
            assign(self, spec)

        mem.update(__init__=init, build_phase=build_phase, end_of_elaboration_phase=end_of_elaboration_phase)

        def task(ph):
            async def t(self, phase):
                note(self, phase, "exec")
                obj = phase.get_objection()
                if ph in spec["drain"]:
                    obj.set_drain_time(self, 4 * spec["drain"][ph])
                if late_of(spec, ph):
                    cocotb.start_soon(late(self, phase, late_of(spec, ph)))
                if ph in spec["act"]:
                    hold(self, phase, "busy")
                    await Timer(4 * spec["act"][ph])
                    release(self, phase, "busy")
            return t
        for ph in ["run"] + RT:
            mem[ph + "_phase"] = task(ph)

        def phase_started(self, phase):
            note(self, phase, "started")

        def phase_ended(self, phase):
            note(self, phase, "ended")

        def phase_ready_to_end(self, phase):
            note(self, phase, "ready")
            dn = phase.get_domain_name()
            for (n, p), ts in open_.items():
                if any(t < simkernel.now() for t in ts) and ((n, p) == (dn, phase.get_name()) or (p in TAIL and phase.get_name() in TAIL)):
                    early.append("at %d for %s.%s while %s.%s has objections raised at %s" % (simkernel.now(), dn, phase.get_name(), n, p, ts))
            ph = phase.get_name()
            left = self.rte.setdefault(ph, list(spec["rte"].get(ph, [])))
            if left:
                d = 4 * left.pop(0)

                async def later():
                    await Timer(d)
                    release(self, phase, "more")
                hold(self, phase, "more")
                if ph in TAIL:
                    drops.append(simkernel.now() + d)
                cocotb.start_soon(later())
        mem.update(phase_started=phase_started, phase_ended=phase_ended, phase_ready_to_end=phase_ready_to_end)

        def extract_phase(self, phase):
            note(self, phase, "exec")
        mem["extract_phase"] = extract_phase
        cnt[0] += 1
        spec["cls"] = comp_class("Vr%d" % cnt[0], mem, UVMTest if top else UVMComponent)
    make(case, True)
    uvm_run(case["cls"])
    rep.none_bad()

    # timing model
    def dur(spec, ph, dom, own):
        """Time until the subtree's total drops to zero, incl. its drain; None if it holds no objection."""
        ts = []
        if (ph == "run" or spec["d"] == dom):
            o = own(spec)
            if o:
                ts.append(o)
        ts += [x for x in (dur(k, ph, dom, own) for k in spec["kids"]) if x is not None]
        if not ts:
            return None
        dr = 4 * spec["drain"].get(ph, 0) if (ph == "run" or spec["d"] == dom) else 0
        return max(ts) + dr

    def base(ph, dom):
        return dur(case, ph, dom, lambda s: 4 * s["act"].get(ph, 0)) or 0

    def ext(ph, dom, i):
        def own(s):
            l = s["rte"].get(ph, [])
            return 4 * l[i] if i < len(l) else None
        return dur(case, ph, dom, own)
    held = fancy = 0
    names = {0: "uvm"}
    names.update((d, "dom%d" % d) for d in used)
    S, E = {}, {}
    for d in names:
        t = 0
        for ph in RT:
            S[d, ph] = t
            t += base(ph, d)
            if ph != "post_shutdown":
                i = 0
                while True:
                    x = ext(ph, d, i)
                    if x is None:
                        break
                    t += x
                    i += 1
                E[d, ph] = t
            else:
                E[d, ph] = t
    last = [E[d, "post_shutdown"] for d in names] + [base("run", 0)]
    end = max(last)
    end = max([end] + drops + lates)
    check(not early, "phase_ready_to_end called %s", early[:2])
    S["c", "run"], E["c", "run"] = 0, end
    for d in names:
        E[d, "post_shutdown"] = end
    by = {}
    for i, (t, dn, ph, path, kind) in enumerate(log):
        by.setdefault((dn, ph, path, kind), []).append((t, i))
    for d, ph in S:
        dn = "common" if d == "c" else names[d]
        members = [p for p, s in paths.items() if d == "c" or s["d"] == d]
        for p in paths:
            for kind, want in (("exec", S[d, ph]), ("started", S[d, ph]), ("ended", E[d, ph])):
                got = by.get((dn, ph, p, kind), [])
                if p in members:
                    eq([t for t, _ in got], [want], "time(s) of %s of phase %s.%s for %s" % (kind, dn, ph, p))
                else:
                    eq(got, [], "%s of phase %s.%s for %s, which belongs to another domain" % (kind, dn, ph, p))
            if p in members:
                rd = by.get((dn, ph, p, "ready"), [])
                check(len(rd) >= 1, "no phase_ready_to_end for %s.%s of %s", dn, ph, p)
                st, ex = by[(dn, ph, p, "started")][0][1], by[(dn, ph, p, "exec")][0][1]
                en = by[(dn, ph, p, "ended")][0][1]
                check(st < ex and all(ex < r[1] < en for r in rd), "order of the hooks of %s.%s in %s", dn, ph, p)
                n_ext = len(paths[p]["rte"].get(ph, []))
                check(len(rd) >= n_ext + (1 if n_ext else 0), "phase_ready_to_end not repeated after an extension of %s.%s in %s", dn, ph, p)
        if members:
            e0 = [by[(dn, ph, p, "exec")][0][1] for p in members]
            s0 = [by[(dn, ph, p, "started")][0][1] for p in members]
            check(max(s0) < min(e0), "phase_started of %s.%s after the phase began executing", dn, ph)
        held += any(ph in paths[p]["act"] for p in members)
        fancy += any((ph in paths[p]["act"] and ph in paths[p]["drain"]) or ph in paths[p]["rte"] for p in members)
    for p in paths:
        eq([t for t, _ in by.get(("common", "extract", p, "exec"), [])], [end], "time of the extract phase of %s" % p)
    return {"nontrivial": held >= 2 and fancy >= 1, "held": held, "fancy": fancy, "domains": len(used), "components": len(paths), "late_raises": len(lates)}
