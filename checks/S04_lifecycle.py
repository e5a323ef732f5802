from util import *

ID = "S04"
META = {
    "title": "Sequence lifecycle: hook order and states, objections, kill, default sequences",
    "statement": "start() runs pre_start, pre_body (only with call_pre_post), the parent's pre_do and mid_do, body, the parent's post_do, post_body, post_start, each exactly once, one after the other without added time, with the matching sequence state, and returns when the last one is done, leaving UVM_FINISHED; the priority is the given one, else the parent's, else 100. With the automatic phase objection set, the sequence holds one objection of its starting phase from before pre_start until after post_start. kill() ends a running sequence and its running children at once: do_kill is called, no further hook runs, the state is UVM_STOPPED, start() returns, the objection is dropped, its requests leave the sequencer, and other sequences and a restart work normally; stop_sequences() does this for all sequences of the sequencer, also while the driver has an item. kill() of a sequence that was never started has no effect. A default_sequence set by name for a sequencer's run-time phase (instance, type with factory overrides, or None to disable; the highest setting in the hierarchy, else the last, wins) runs when that phase starts with that starting phase and is killed when it ends.",
    "over": ["histories", "schedules"],
    "quant": "all trees of sequences with hook delays, priorities, call_pre_post, objections, kill times and targets, restarts, and default-sequence settings",
    "why": "Tests run uninterrupted single sequences; the guarantees matter when hooks take time, sequences are killed at any point, and phases end.",
    "files": ["src/uvm/seq/uvm_sequence_base.py", "src/uvm/seq/uvm_sequencer_base.py", "src/uvm/seq/uvm_sequence_item.py", "src/uvm/base/uvm_task_phase.py", "src/uvm/dap/uvm_get_to_lock_dap.py"],
    "mech": [["UVMSequenceBase.start / start_process / kill", "src/uvm/seq/uvm_sequence_base.py"], ["UVMSequencerBase.start_phase_sequence / stop_phase_sequence / kill_sequence", "src/uvm/seq/uvm_sequencer_base.py"]],
    "note": "Whole tests on a simulated kernel; every hook call with its time and state is compared with the prescribed history.",
}
RULE = "a running sequence was killed, or a sequence with hook delays ran under a parent, or a default sequence ran"
N = (110, 11000)
ASSUMPTIONS = ["kill times do not coincide with other events", "finish_item follows start_item in zero time when sequences are killed"]
HOOKS = ["pre_start", "pre_body", "post_body", "post_start"]
PHASES = ["reset", "configure", "main", "shutdown"]


def tree(g, depth, uid):
    steps = []
    for n in range(g.i(0, 3)):
        k = g.i(0, 6)
        if k < 3:
            steps.append(["item"])
        elif k < 5 or not depth:
            steps.append(["wait", g.i(1, 4)])
        else:
            par = g.b(1, 3)
            steps.append(["par", [tree(g, depth - 1, "%s.%d%s" % (uid, n, x)) for x in "ab"]] if par else ["sub", tree(g, depth - 1, "%s.%d" % (uid, n))])
    return {"uid": uid, "steps": steps, "cpp": 0 if g.b(1, 4) else 1, "prio": g.pick([-1, -1, -1, 5, 300]), "obj": g.b(1, 3),
            "d": [g.pick([0, 0, 1, 2]) for _ in HOOKS]}


def strategy():
    def fn(g):
        tops = [{"t": g.pick([0, 0, 1, 3]), "node": tree(g, 2, str(i)), "again": g.b(1, 3)} for i in range(g.i(1, 3))]
        uids = []

        def walk(n):
            uids.append(n["uid"])
            for s in n["steps"]:
                if s[0] == "sub":
                    walk(s[1])
                elif s[0] == "par":
                    for x in s[1]:
                        walk(x)
        for t in tops:
            walk(t["node"])
        kills = sorted([g.i(0, 12), g.pick(uids + ["*"])] for _ in range(g.pick([0, 1, 1, 2, 3])))
        defs = [[g.pick(PHASES), g.pick(["type", "inst", "none", "type"]), g.i(0, 6), g.b(1, 3), g.b(1, 3)] for _ in range(g.pick([0, 0, 1, 2, 3, 4]))]
        return {"tops": tops, "kills": kills, "defs": defs, "override": g.b(1, 3), "drv": g.pick([0, 1, 2]),
                "len": {p: g.i(0, 4) for p in PHASES}, "res": g.b(1, 3)}
    return gen(fn, 260)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent, UVMSequence, UVMSequenceItem, UVMSequencer, UVMDriver, UVMConfigDb
    from uvm.base.uvm_object_globals import (UVM_PRE_START, UVM_PRE_BODY, UVM_BODY, UVM_ENDED, UVM_POST_BODY, UVM_POST_START,
                                             UVM_STOPPED, UVM_FINISHED, UVM_CREATED)
    from uvm.macros import uvm_object_utils
    from uvm.base.uvm_factory import UVMFactory
    rep = Reports()
    now = lambda: cocotb.utils.get_sim_time("ps")
    st = {"waiting": {}, "ask": False, "grant": False, "done": 0, "par": 0, "restarts": 0, "killed": 0, "subhooks": 0, "defs": 0}
    done = []     # sequences that finished
    live = {}     # uid -> running sequence
    state = {"pre_start": UVM_PRE_START, "pre_body": UVM_PRE_BODY, "pre_do": (UVM_PRE_START, UVM_PRE_BODY), "mid_do": (UVM_PRE_START, UVM_PRE_BODY),
             "body": UVM_BODY, "post_do": UVM_ENDED, "post_body": UVM_POST_BODY, "post_start": UVM_POST_START}

    class Item(UVMSequenceItem):
        pass
    uvm_object_utils(Item)

    class Seq(UVMSequence):
        node = None

        def mark(self, hook, who=None):
            check(self.alive, "%s of %s called although it is not running", hook, self.node["uid"])
            want = state[hook]
            got = self.get_sequence_state()
            check(got == want or (isinstance(want, tuple) and got in want), "state of %s in %s is %r", self.node["uid"], hook, got)
            seqn = ["pre_start"] + ["pre_body"] * self.node["cpp"] + (["pre_do", "mid_do"] if self.up else []) + ["body"] \
                + (["post_do"] if self.up else []) + ["post_body"] * self.node["cpp"] + ["post_start"]
            check(len(self.log) < len(seqn) and seqn[len(self.log)] == hook, "%s: %s after %r", self.node["uid"], hook, self.log)
            self.log.append(hook)
            eq(now(), self.last, "%s: time of %s" % (self.node["uid"], hook))
            if self.up and self.node["d"] != [0] * 4:
                st["subhooks"] += 1

        async def hook(self, i):
            self.mark(HOOKS[i])
            if self.node["d"][i]:
                await Timer(self.node["d"][i] * 1000, "ps")
            self.last = now()

        async def pre_start(self):
            await self.hook(0)

        async def pre_body(self):
            await self.hook(1)

        async def post_body(self):
            await self.hook(2)

        async def post_start(self):
            await self.hook(3)

        def pre_do(self, is_item):
            if not is_item:
                if len(self.kidseqs) == 1:
                    self.kidseqs[0].mark("pre_do")
                else:               # (pre_do does not tell which child it is called for: the one in front of its mid_do)
                    self.pend += 1

        def mid_do(self, it):
            if it in self.kidseqs:
                if len(self.kidseqs) > 1:
                    check(self.pend > 0, "%s: mid_do without pre_do", self.node["uid"])
                    self.pend -= 1
                    it.mark("pre_do")
                it.mark("mid_do")

        def post_do(self, it):
            if it in self.kidseqs:
                it.mark("post_do")

        def do_kill(self):
            self.kills += 1

        async def body(self):
            self.mark("body")
            eq(self.get_priority(), self.prio, "priority of " + self.node["uid"])
            for n, s in enumerate(self.node["steps"]):
                if s[0] == "wait":
                    await Timer(s[1] * 1000, "ps")
                elif s[0] == "item":
                    it = Item("it%d" % n)
                    st["waiting"][self.node["uid"]] = 1
                    await self.start_item(it)
                    await self.finish_item(it)
                    st["waiting"].pop(self.node["uid"], 0)
                else:
                    nodes = s[1] if s[0] == "par" else [s[1]]
                    self.kidseqs = [Seq("c%d" % n) for _ in nodes]
                    for c in self.kidseqs:
                        eq(c.get_sequence_state(), UVM_CREATED, "state of a new sequence")
                        c.kill()        # (has no effect: it has not been started)
                        eq(c.get_sequence_state(), UVM_CREATED, "state of a new sequence after kill()")
                        c.kills = 0
                    ts = [cocotb.start_soon(launch(c, x, self)) for c, x in zip(self.kidseqs, nodes)]
                    st["par"] += len(ts) > 1
                    for t in ts:
                        await t
                    self.kidseqs = []
            self.last = now()
    uvm_object_utils(Seq)

    async def launch(s, node, up):
        s.node, s.up, s.log, s.kills, s.alive, s.kidseqs, s.pend = node, up, [], 0, True, [], 0
        s.prio = node["prio"] if node["prio"] >= 0 else up.prio if up else 100
        if node["obj"]:
            if s not in done:       # (a further start() keeps the flag)
                s.set_automatic_phase_objection(1)
            s.set_starting_phase(st["phase"])
        if s in done:
            done.remove(s)
        s.last = s.begun = now()
        live[node["uid"]] = s
        await s.start(st["sqr"], up, node["prio"], node["cpp"])
        check(now() == (s.killed_at if not s.alive else s.last), "start() of %s returned at %d", node["uid"], now())
        if s.alive:
            eq(s.log[-1:], ["post_start"], "last hook of %s" % node["uid"])
            eq(s.get_sequence_state(), UVM_FINISHED, "state of %s after start()" % node["uid"])
            eq(s.get_depth(), node["uid"].count(".") + 1, "get_depth")
            if node["obj"]:
                eq(int(s.get_automatic_phase_objection() or 0), 1, "get_automatic_phase_objection of %s after start()" % node["uid"])
            s.alive = False
            live.pop(node["uid"])
            done.append(s)
        else:
            eq(s.get_sequence_state(), UVM_STOPPED, "state of %s after start()" % node["uid"])
        eq(s.kills, 0 if s.log[-1:] == ["post_start"] and not hasattr(s, "killed_at") else 1, "do_kill calls of " + node["uid"])

    def stop():
        """stop_sequences(); a driver that has an item is restarted"""
        st["killed"] += 1
        if not st["ask"]:
            st["loop"].kill()
            st["restarts"] += 1
        every = list(live.values())
        for x in every:
            x.alive, x.killed_at = False, now()
        live.clear()
        st["waiting"].clear()
        st["sqr"].stop_sequences()
        if not st["ask"]:
            st["loop"] = cocotb.start_soon(st["drv"].loop())
        for x in every:
            eq(x.get_sequence_state(), UVM_STOPPED, "state of %s after stop_sequences" % x.node["uid"])
            eq(x.kills, 1, "do_kill calls of " + x.node["uid"])

    def do_kill(s):
        st["killed"] += 1
        uid = s.node["uid"]
        sub = [x for u, x in live.items() if u == uid or u.startswith(uid + ".")]
        for x in sub:
            x.alive, x.killed_at = False, now()
            live.pop(x.node["uid"])
            st["waiting"].pop(x.node["uid"], 0)
        s.kill()
        for x in sub:
            eq(x.get_sequence_state(), UVM_STOPPED, "state of %s after kill of %s" % (x.node["uid"], uid))
            eq(x.kills, 1, "do_kill calls of " + x.node["uid"])

    class Drv(UVMDriver):
        async def run_phase(self, phase):
            st["drv"] = self
            st["loop"] = cocotb.start_soon(self.loop())

        async def loop(self):
            while True:
                t = []
                st["ask"] = True
                await self.seq_item_port.get_next_item(t)
                st["ask"] = False
                if case["drv"]:
                    await Timer(case["drv"] * 1000, "ps")
                self.seq_item_port.item_done()

    async def one(t):
        if t["t"]:
            await Timer(t["t"] * 1000, "ps")
        s = Seq("top" + t["node"]["uid"])
        await launch(s, t["node"], None)
        if t["again"]:
            await Timer(2000 - now() % 1000, "ps")
            if hasattr(s, "killed_at"):
                del s.killed_at
            await launch(s, t["node"], None)
        st["done"] += 1

    async def run_phase(self, phase):
        phase.raise_objection(self)
        st["phase"] = phase
        for t in case["tops"]:
            cocotb.start_soon(one(t))
        kills = [list(k) for k in case["kills"]]
        for n in range(120):
            # kills and checks fall between the times of all other events
            while kills and kills[0][0] <= n:
                await Timer(n * 1000 + 550 - 7 * len(kills) - now(), "ps")
                k = kills.pop(0)
                if k[1] == "*":
                    stop()
                elif k[1] in live:
                    do_kill(live[k[1]])
            await Timer(n * 1000 + 900 - now(), "ps")
            check(not (st["ask"] and st["waiting"]), "driver and sequences %r wait for each other", sorted(st["waiting"]))
            o = phase.get_objection()
            for uid, s in live.items():
                eq(o.get_objection_count(s), 1 if s.node["obj"] else 0, "objections of " + uid)
            eq(o.get_objection_total(self.get_parent()), 1 + sum(1 for s in live.values() if s.node["obj"]), "total objections")
            if st["done"] == len(case["tops"]):
                break
        eq(st["done"], len(case["tops"]), "sequences done")
        for s in done:
            eq((s.get_sequence_state(), s.kills), (UVM_FINISHED, 0), "state and do_kill calls of the finished sequence " + s.node["uid"])
        phase.drop_objection(self)

    # ---- default sequences on a second sequencer
    dlog, plog = [], {}

    class Def(UVMSequence):
        T, auto = 0, False

        async def body(self):
            ph = self.get_starting_phase()
            r = [ph.get_name(), self.get_type_name(), now(), None, self.get_sequencer(), None, self]
            dlog.append(r)
            await Timer(self.T * 1000 + 250, "ps")
            r[3] = now()

        def do_kill(self):
            for r in dlog:
                if r[6] is self:
                    r[5] = now()

    class DefB(Def):
        pass
    uvm_object_utils(Def)
    uvm_object_utils(DefB)
    Def.T = max([d[2] for d in case["defs"]] or [0])

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr = st["sqr"] = UVMSequencer("sqr", self)
        self.sqd = UVMSequencer("sqd", self)
        self.drv = Drv("drv", self)
        self.exp = {}
        if case["override"]:
            Def.type_id.set_type_override(DefB.type_id.get())
        high = []
        for ph, kind, T, auto, root in case["defs"]:
            v, old = None, self.exp.get(ph)
            if kind == "type":
                v = Def.type_id.get()
                self.exp[ph] = ("DefB" if case["override"] else "Def", Def.T, False, None)
            elif kind == "inst":
                v = Def("inst")
                v.T = T
                v.set_automatic_phase_objection(int(auto))
                self.exp[ph] = ("Def", T, auto, v)
            else:
                self.exp[ph] = None
            # while building, a setting made higher in the hierarchy prevails over one made below it
            if root:
                high.append(ph)
            elif ph in high:
                self.exp[ph] = old
            UVMConfigDb.set(None if root else self, ("uvm_test_top." if root else "") + "sqd.%s_phase" % ph, "default_sequence", v)

    def connect(self, phase):
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)

    def mk(ph):
        async def task(self, phase):
            plog[ph] = [now(), None]
            phase.raise_objection(self)
            await Timer(case["len"][ph] * 1000 + 500, "ps")
            phase.drop_objection(self)
        return task

    def ended(self, phase):
        if phase.get_name() in plog:
            plog[phase.get_name()][1] = now()
    mem = {"build_phase": build, "connect_phase": connect, "run_phase": run_phase, "phase_ended": ended}
    for p in PHASES:
        mem[p + "_phase"] = mk(p)
    top = comp_class("S04Top", mem)
    uvm_run(top)
    from uvm.base.uvm_coreservice import UVMCoreService
    t = UVMCoreService.get().get_root().find("uvm_test_top")
    want = {p: e for p, e in t.exp.items() if e}
    eq(sorted(r[0] for r in dlog), sorted(want), "phases whose default sequence ran")
    for ph, typ, t0, t1, sqr, killed, s in dlog:
        e = want[ph]
        st["defs"] += 1
        eq(typ, e[0], "type of the default sequence of " + ph)
        check(e[3] is None or s is e[3], "default sequence of %s is another instance", ph)
        check(sqr is t.sqd, "sequencer of the default sequence of %s", ph)
        eq(t0, plog[ph][0], "start of the default sequence of " + ph)
        end = plog[ph][1]
        stop = t0 + e[1] * 1000 + 250
        own = t0 + case["len"][ph] * 1000 + 500
        eq(end, max(own, stop) if e[2] else own, "end of phase " + ph)
        eq((t1, killed), (stop, None) if stop <= end else (None, end), "end/kill of the default sequence of " + ph)
    for ph, (a, b) in plog.items():
        if ph not in want:
            eq(b, a + case["len"][ph] * 1000 + 500, "end of phase " + ph)
    rep.none_bad()
    return {"nontrivial": bool(st["killed"] or st["subhooks"] or st["defs"]), "killed": st["killed"], "subhooks": st["subhooks"], "defaults": st["defs"], "parallel": st["par"], "driver_restarts": st["restarts"]}
