from util import *

ID = "P03"
META = {
    "title": "Objection counts, propagation, drain times and notifications are exact",
    "statement": "For every history of raises and drops by any components, sequences and other objects to any number of objections, each object's source count is what it raised minus what it dropped and each total follows the documented propagation: a drop to zero reaches the parent only after the object's drain time and its all_dropped hook, and a re-raise in between cancels that and propagates only the difference. The raised, dropped and all_dropped hooks, callbacks and wait_for() calls fire at exactly the resulting times with the resulting counts, and dropping more than was raised is reported as fatal. A copy of an objection starts with its counts and then lives on its own.",
    "over": ["histories", "schedules"],
    "quant": "all component trees, drain times (per object and top), all_dropped hooks that take time, raise/drop counts and timings including re-raises during any stage of a drain, changes of drain times, clear(), and tracing on or off",
    "why": "Tests raise and drop once or twice; cancelled and partly completed drains at several levels depend on exact timing of several objects.",
    "files": ["src/uvm/base/uvm_objection.py", "src/uvm/base/uvm_component.py"],
    "mech": [["UVMObjection.m_raise / m_drop / m_forked_drain / m_execute_scheduled_forks", "src/uvm/base/uvm_objection.py"], ["UVMObjection.wait_for / clear", "src/uvm/base/uvm_objection.py"]],
    "note": "Random timed histories against an event-driven reference model, comparing the complete notification log and all counts at every step.",
}
RULE = "a drain was cancelled by a re-raise, or two drains were pending at the same time"
N = (130, 12000)
NAMES = ["a", "b", "ab", "u[0]"]


def node(g, depth, slow):
    n = {"kids": [], "drain": g.b(1, 2), "len": g.i(0, 5), "slow": slow and g.b(1, 4), "seq": 0}
    if depth:
        n["kids"] = [node(g, depth - 1, slow) for _ in range(g.i(1 if depth == 3 else 0, 2))]
    elif g.b(1, 4):
        # a sequencer, with an objecting sequence
        n["seq"] = 1
        n["kids"] = [dict(node(g, 0, False), slow=False, seq=2, kids=[])]
    return n


def op(g):
    k = g.i(0, 12)
    o = {"k": "raise", "dt": g.pick([0, 0, 1, 1, 1, 1, 2, 3]), "ref": g.i(0, 30), "c": 0, "near": g.b(2, 3), "w": g.i(0, 1)}
    if k <= 4:
        o["c"] = g.pick([1, 1, 2, 3])
    elif k <= 8:
        o.update(k="drop", c=g.pick([0, 0, 0, 1, 2]))
    elif k <= 10:
        o.update(k="wait", c=g.i(0, 2), dt=max(1, o["dt"]))
    elif k == 11:
        o.update(k="drain", c=g.i(0, 5), dt=max(1, o["dt"]))
    elif g.b(1, 3):
        o.update(k="clear")
    elif g.b():
        o.update(k="copy", c=g.i(0, 2))
    return o


def strategy():
    return gen(lambda g: case_(g, g.i(0, 2)), 500)


def case_(g, kind):
    # all_dropped hooks that take time and callbacks are not combined
    return {"tree": node(g, 3, kind == 0), "top": g.b(1, 3), "toplen": g.i(0, 5), "trace": g.b(1, 4), "cb": kind == 1,
            "two": g.b(), "plain": g.b(1, 4), "over": g.b(1, 8), "ops": g.some(4, 30, lambda: op(g))}


def run(case):
    from uvm import UVMComponent, UVMTest, UVMSequencer, UVMSequence, UVMObject
    from uvm.base.uvm_objection import UVMObjection, UVMObjectionCallback
    from uvm.base.uvm_callback import UVMCallbacks
    from uvm.base.uvm_object_globals import UVM_RAISED, UVM_DROPPED, UVM_ALL_DROPPED
    from uvm.base.uvm_coreservice import UVMCoreService
    from cocotb.triggers import Timer
    import cocotb
    rep = Reports()
    STEP = 1000
    specs = {}
    order = []

    def walk(spec, path, parent):
        spec["path"], spec["parent"] = path, parent
        order.append(path)
        specs[path] = spec
        for i, k in enumerate(spec["kids"]):
            walk(k, path + "." + NAMES[i], path)
    walk(case["tree"], "uvm_test_top", "")
    if case["plain"]:
        # an object that is neither a component nor a sequence propagates to the top
        walk({"kids": [], "drain": case["toplen"] % 2, "len": 1, "slow": False, "seq": 3}, "plain", "")
    specs[""] = {"path": "", "parent": None, "drain": case["top"], "len": case["toplen"], "slow": False, "seq": 4}
    # drain times: distinct powers of two (sums never collide and never hit a multiple of the step)
    bit = 0
    for p in [""] + order:
        s = specs[p]
        s["dt"] = s["ht"] = 0
        if s["drain"] and bit < 9:
            s["bit"] = 1 << bit
            s["dt"] = s["bit"] + STEP * s["len"]
            bit += 1
        if s["slow"] and bit < 9:
            s["ht"] = (1 << bit) + STEP * (s["len"] % 4)
            bit += 1
    order.append("")
    comps = {}
    objs = []
    refs = []
    copies = []       # (copied objection, its counts, its totals)
    cnt = [0]
    bad = []
    stat = {"cancel": 0, "multi": 0, "drops": 0, "waits": 0, "events": 0}
    kinds = {"raised": UVM_RAISED, "dropped": UVM_DROPPED, "all_dropped": UVM_ALL_DROPPED}

    def index(objection):
        for i, o in enumerate(objs):
            if o is objection:
                return i
        return None

    def make(spec, top):
        for k in spec["kids"]:
            make(k, False)
        base = UVMTest if top else UVMSequencer if spec["seq"] == 1 else UVMComponent

        def init(self, name="", parent=None):
            base.__init__(self, name, parent)
            comps[self.get_full_name()] = self

        def build_phase(self, phase):
            for i, k in enumerate(spec["kids"]):
                if k["seq"] == 2:
                    q = UVMSequence(NAMES[i])
                    q.set_sequencer(self)
                    comps[q.get_full_name()] = q
                else:
                    k["cls"](NAMES[i], self)

        def hook(kind):
            def h(self, objection, source_obj, description, count):
                i = index(objection)
                if i is not None:
                    refs[i].log.append([simkernel.now(), kind, self.get_full_name(), source_obj.get_full_name(), description, count])
            return h

        async def all_dropped(self, objection, source_obj, description, count):
            i = index(objection)
            if i is not None:
                refs[i].log.append([simkernel.now(), "all_dropped", self.get_full_name(), source_obj.get_full_name(), description, count])
                if spec["ht"]:
                    await Timer(spec["ht"])
        mem = {"__init__": init, "build_phase": build_phase, "raised": hook("raised"), "dropped": hook("dropped"), "all_dropped": all_dropped}
        if top:
            mem["run_phase"] = main
        cnt[0] += 1
        spec["cls"] = comp_class("Vo%d" % cnt[0], mem, base)

    class Ref:
        """Reference model of one objection."""

        def __init__(self):
            self.src = {p: 0 for p in order}
            self.tot = {p: 0 for p in order}
            self.drain = {}                    # path -> [stage, time, count, source, descr]
            self.dt = {p: specs[p]["dt"] for p in order}
            self.ref, self.log, self.refcb, self.cblog, self.waits = [], [], [], [], []
            self.cleared = False
            self.fired = {}

        def note(self, t, kind, p, s, d, c):
            if specs[p]["seq"] < 2:
                self.ref.append([t, kind, p, s, d, c])
            if case["cb"]:
                self.refcb.append([t, kind, p, s, c])
            self.fired[p, 0], self.fired[p, 1] = kind, t
            for w in self.waits:
                if w["kind"] == kind and w["path"] == p and w["want"] is None and t > w["from"]:
                    w["want"] = t

        def raise_(self, t, p, s, d, c):
            if c == 0:
                return
            self.tot[p] += c
            if s == p:
                self.src[p] += c
            self.note(t, "raised", p, s, d, c)
            diff = c
            if p in self.drain:
                diff = c - self.drain.pop(p)[2]
                stat["cancel"] += 1
            if p != "" and diff > 0:
                self.raise_(t, specs[p]["parent"], s, d, diff)
            elif p != "" and diff < 0:
                self.drop(t, specs[p]["parent"], s, d, -diff)

        def drop(self, t, p, s, d, c):
            if c == 0:
                return
            if s == p:
                self.src[p] -= c
            self.tot[p] -= c
            self.note(t, "dropped", p, s, d, c)
            if self.tot[p]:
                if p != "":
                    self.drop(t, specs[p]["parent"], s, d, c)
            else:
                self.drain[p] = ["drain", t + self.dt[p], c, s, d]
                if len(self.drain) > 1:
                    stat["multi"] += 1

        def until(self, t):
            """Process the drain steps due before time t (every drain step has its own time)."""
            while self.drain:
                p = min(self.drain, key=lambda x: self.drain[x][1])
                st, at, c, s, d = self.drain[p]
                if at >= t:
                    return
                if st == "drain":
                    self.note(at, "all_dropped", p, s, d, c)
                    self.drain[p] = ["hook", at + specs[p]["ht"], c, s, d]
                else:
                    del self.drain[p]
                    if p != "":
                        self.drop(at, specs[p]["parent"], s, d, c)

    def compare(t):
        for k, (o, r) in enumerate(zip(objs, refs)):
            for p in order:
                c = comps[p]
                g = (o.get_objection_count(c), o.get_objection_total(c))
                if g != (r.src[p], r.tot[p]):
                    bad.append("t=%d: count/total of %r in objection %d are %r, expected %r" % (t, p, k, g, (r.src[p], r.tot[p])))
            if case["trace"]:
                text = o.convert2string()
                rows = []
                for l in text.split("\n"):
                    f = l.split()
                    if len(f) == 3 and f[0].isdigit():
                        rows.append((int(f[0]), int(f[1]), f[2].strip("'")))
                want = [(r.src[p], r.tot[p], p.rpartition(".")[2] or "uvm_top") for p in sorted(order) if r.tot[p]] if r.tot[""] else []
                if sorted(rows) != sorted(want):
                    bad.append("t=%d: display shows %r, expected %r" % (t, rows, want))

    async def main(self, phase):
        phase.raise_objection(self)
        comps[""] = UVMCoreService.get().get_root()
        if case["plain"]:
            comps["plain"] = UVMObject("plain")
        for k in range(2 if case["two"] else 1):
            o = UVMObjection("obj%d" % k)
            if case["trace"]:
                o.trace_mode(1)
            if case["cb"]:
                class Cb(UVMObjectionCallback):
                    def raised(self, objection, ob, source_obj, description, count):
                        refs[self.k].cblog.append([simkernel.now(), "raised", ob.get_full_name(), source_obj.get_full_name(), count])

                    def dropped(self, objection, ob, source_obj, description, count):
                        refs[self.k].cblog.append([simkernel.now(), "dropped", ob.get_full_name(), source_obj.get_full_name(), count])

                    async def all_dropped(self, objection, ob, source_obj, description, count):
                        refs[self.k].cblog.append([simkernel.now(), "all_dropped", ob.get_full_name(), source_obj.get_full_name(), count])
                cb = Cb("cb")
                cb.k = k
                UVMCallbacks.add(o, cb)
            for p in order:
                if specs[p]["dt"]:
                    o.set_drain_time(comps[p] if p else None, specs[p]["dt"])
            objs.append(o)
            refs.append(Ref())

        async def waiter(w, o):
            await o.wait_for(kinds[w["kind"]], comps[w["path"]])
            w["got"] = simkernel.now()
        before = "wait"
        nclear = 0
        for n, x in enumerate(case["ops"]):
            k = x["w"] % len(objs)
            o, r = objs[k], refs[k]
            what, dt, c = x["k"], x["dt"], x["c"]
            # (two drops of the same objection in one time step: the order of their drains is not specified)
            if before == "wait" or (what == "drop" and any(d[1] <= simkernel.now() for d in r.drain.values())):
                dt = max(dt, 1)
            before = what
            if dt:
                await Timer(dt * STEP)
            t = simkernel.now()
            for q in refs:
                q.until(t)
            compare(t)
            p = order[x["ref"] % len(order)]
            if what == "raise":
                below = [q for q in order if any(q == d or (q + ".").startswith(d + ".") for d in r.drain)]
                if x["near"] and below:
                    p = below[x["ref"] % len(below)]
                o.raise_objection(comps[p] if p else None, "d%d" % n, c)
                r.raise_(t, p, p, "d%d" % n, c)
                r.cleared = False
            elif what == "drop":
                have = [q for q in order if r.src[q]]
                if not have:
                    if r.cleared:      # (nothing raised since clear(): a late drop is ignored)
                        o.drop_objection(comps[p] if p else None, "d%d" % n, c + 1)
                        compare(t)
                    continue
                p = have[x["ref"] % len(have)]
                c = r.src[p] if c == 0 else min(c, r.src[p])
                stat["drops"] += 1
                o.drop_objection(comps[p] if p else None, "d%d" % n, c)
                r.drop(t, p, p, "d%d" % n, c)
            elif what == "wait":
                if x["near"] and r.waits:      # (an object with another waiter)
                    w = r.waits[x["ref"] % len(r.waits)]
                    p = w["path"]
                    # something fired while that one goes on waiting: only a later one counts
                    for w in r.waits:
                        if w["want"] is None and (w["path"], 1) in r.fired and r.fired[w["path"], 1] > w["from"]:
                            p, c = w["path"], list(kinds).index(r.fired[w["path"], 0])
                if specs[p]["ht"]:
                    c = c % 2         # (a callback cancelled while the hook runs is not specified)
                w = {"kind": list(kinds)[c], "path": p, "want": None, "from": t, "got": None}
                r.waits.append(w)
                cocotb.start_soon(waiter(w, o))
            elif what == "drain":
                if "bit" in specs[p]:
                    r.dt[p] = specs[p]["bit"] + STEP * c
                    o.set_drain_time(comps[p] if p else None, r.dt[p])
            elif what == "copy":
                cp = UVMObjection("cp")
                cp.copy(o)
                if c < 2:
                    copies.append((cp, dict(r.src), dict(r.tot)))
                else:           # (clearing the copy leaves the original alone)
                    nclear += r.tot[""] > 0
                    cp.clear(self)
                    copies.append((cp, {}, {}))
            elif what == "clear":
                nclear += r.tot[""] > 0
                o.clear(self)
                for q in order:
                    r.src[q] = r.tot[q] = 0
                r.drain.clear()
                r.cleared = True
                for w in r.waits:
                    if w["want"] is None and w["path"] == "" and w["kind"] == "all_dropped":
                        w["want"] = t
                if len(rep.of(1, "OBJTN_CLEAR")) != nclear:
                    bad.append("t=%d: %d warnings of %d calls of clear() with objections outstanding" % (t, len(rep.of(1, "OBJTN_CLEAR")), nclear))
            compare(t)
        await Timer(40 * STEP)
        for cp, src, tot in copies:
            for p in order:
                got = (cp.get_objection_count(comps[p]), cp.get_objection_total(comps[p]))
                if got != (src.get(p, 0), tot.get(p, 0)):
                    bad.append("a copied objection has counts %r for %r, expected %r" % (got, p, (src.get(p, 0), tot.get(p, 0))))
        for r in refs:
            r.until(simkernel.now())
        compare(simkernel.now())
        for r in refs:
            r.snap = list(r.log), list(r.cblog)
            for w in r.waits:
                w["got0"] = w["got"]
        if case["over"]:
            r, o = refs[0], objs[0]
            p = order[len(case["ops"]) % len(order)]
            if p == "":
                p = "uvm_test_top"
            inner = [q for q in order if q and r.tot[q] > r.src[q]]
            if inner and len(case["ops"]) % 2:
                p = inner[0]      # (its total covers the drop, its own count does not)
            o.raise_objection(comps[p], "", 1)          # (a drop after clear() is not an error until a new raise)
            rep.server.set_max_quit_count(0)
            rep_fatal(o, r, p, r.src[p] + 2)
        phase.drop_objection(self)

    def rep_fatal(o, r, p, c):
        n = len(rep.of(3, "OBJTN_ZERO"))
        try:
            o.drop_objection(comps[p], "", c)
        except Exception:  # noqa  (a fatal report ends the run)
            pass
        if len(rep.of(3, "OBJTN_ZERO")) != n + 1:
            bad.append("dropping %d objections of %r, more than were raised, is not reported" % (c, p))
        if o.get_objection_count(comps[p]) != r.src[p] + 1:
            bad.append("a rejected drop changed the count")
    make(case["tree"], True)
    uvm_run(case["tree"]["cls"])
    check(not bad, "%s", bad[:2])
    check(not [m for m in rep.msgs if m[0] >= 1 and m[1] not in ("OBJTN_ZERO", "OBJTN_CLEAR")], "unexpected reports %r", rep.msgs[-3:])
    for k, r in enumerate(refs):
        eq(r.snap[0], r.ref, "notification log of objection %d" % k)
        if case["cb"]:
            eq(r.snap[1], r.refcb, "callback log of objection %d" % k)
        for w in r.waits:
            eq(w["got0"], w["want"], "return time of wait_for(%s, %r) called at %d" % (w["kind"], w["path"], w["from"]))
        stat["events"] += len(r.ref)
        stat["waits"] += len(r.waits)
    return {"nontrivial": stat["cancel"] > 0 or stat["multi"] > 0, "events": stat["events"], "cancelled": stat["cancel"], "waits": stat["waits"]}
