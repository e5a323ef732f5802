from util import *

ID = "G01"
META = {
    "title": "Illegal use of components, sequences, sequencers and phases is diagnosed",
    "statement": "Illegal calls are answered with the documented report, carrying the documented severity and id and naming the object at fault. Non-fatal ones (creating or cloning through a component, renaming one, failed lookups and finds, identical overrides, bad callback registrations, a duplicate domain name, objecting to a phase that is no task phase, a sequence without body, get_next_item twice, a sequence that ends with requests outstanding or keeps try_next_item waiting, negative time) change nothing: all traffic before and after them is delivered completely and in order. Fatal ones (duplicate child, components created after build, starting a running sequence, bad priorities, items without sequencer, item_done or finish_item without a granted item, responses without id, wait_for_relevant returning without time passing more often than allowed, bad phase insertions, unknown tests) end the test: pre_abort runs bottom-up on every component, the caller is not resumed, and no later phase is executed.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all kinds, places and orders of misuse in a running test, with any traffic around them",
    "why": "Tests of misuse are few: a missing report lets a broken test bench run on, and an error path that leaves state behind breaks the legal use that follows.",
    "files": ["src/uvm/base/uvm_component.py", "src/uvm/base/uvm_root.py", "src/uvm/base/uvm_phase.py", "src/uvm/seq/uvm_sequence_base.py", "src/uvm/seq/uvm_sequencer.py", "src/uvm/seq/uvm_sequencer_param_base.py", "src/uvm/base/uvm_callback.py", "src/uvm/base/uvm_factory.py"],
    "mech": [["UVMComponent.__init__ / set_name / lookup / clone / create", "src/uvm/base/uvm_component.py"], ["UVMRoot.run_test / find / die", "src/uvm/base/uvm_root.py"], ["UVMSequenceBase.start / start_item / finish_item", "src/uvm/seq/uvm_sequence_base.py"], ["UVMSequencer.get_next_item / try_next_item / item_done", "src/uvm/seq/uvm_sequencer.py"], ["UVMPhase.add / m_report_null_objection", "src/uvm/base/uvm_phase.py"]],
    "note": "Whole tests on a simulated kernel: legal traffic with illegal steps mixed in; reports, deliveries, phases and the end of the test are judged.",
}
RULE = "an illegal step was made between two items, or the test ended with a fatal report"
N = (100, 9000)
ASSUMPTIONS = ["a fatal report raises UVMFinishError in the caller (the library's stand-in for $finish)"]
MILD = ["create", "clone", "rename", "lookup", "findnone", "findmany", "typdup", "namedup", "cbnone", "cbtwice", "cbtwtwice", "domain", "objimp",
        "objbuild", "nobody", "hstob", "timeneg", "decneg", "toodecr", "copynone", "cmppair", "rspover", "strayrsp", "orphan", "tryblocked"]
FATAL = [None] * 30 + ["dupchild", "duptop", "late", "lateroot", "running", "runningseq", "pri", "noneitem", "noseq", "finnoseq", "itemdone", "rspnone", "rspid", "send",
         "phnull", "phwith", "phbefore", "phafter", "phboth", "phbegin", "second", "unknown", "empty", "copypair", "incrscale", "decrscale", "fintwice", "fintwice", "relloop", "relloop", "sendnull"]


def strategy():
    def fn(g):
        seqs = []
        for _ in range(g.i(1, 3)):
            steps = []
            for _ in range(g.i(1, 5)):
                k = g.i(0, 4)
                steps.append(["item", g.i(0, 255)] if k < 2 else ["wait", g.i(1, 2)] if k == 2 else ["bad", g.pick(MILD)])
            seqs.append(steps)
        return {"seqs": seqs, "drv": [g.pick(["", "", "twice", "try"]) for _ in range(4)], "delays": [g.pick([0, 1]) for _ in range(3)],
                "fatal": g.pick(FATAL), "late": g.pick([0, 0, 3]),
                "orph": [g.i(1, 3), g.b()], "rel": [g.pick([0, 3, 1, 6]), [g.i(1, 10) for _ in range(g.i(0, 4))], g.i(1, 3)]}
    return gen(fn, 180)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import (UVMComponent, UVMTest, UVMSequence, UVMSequenceItem, UVMSequencer, UVMDriver, UVMObject, UVMCallback, UVMCallbacks, 
                     UVMRunPhase, UVMBuildPhase, UVMCoreService, run_test, uvm_register_cb, uvm_object_utils, uvm_component_utils)
    from uvm.base.uvm_domain import UVMDomain
    from uvm.base.uvm_callback import UVMCallbackIter
    from uvm.base.uvm_task_phase import UVMTaskPhase
    from uvm.tlm2.uvm_tlm2_time import UVMTLMTime
    from uvm.comps.uvm_pair import UVMClassPair
    rep = Reports()
    root = UVMCoreService.get().get_root()
    factory = UVMCoreService.get().get_factory()
    I, W, E, F = 0, 1, 2, 3
    st = {"bad": 0, "between": 0, "items": 0, "n": 0}
    LATER = ("uvm_sequence_base", "uvm_test_top.sqr")
    apart, expected = [], []
    got, sent, phases, aborted = [], {}, [], []
    ended = {"fatal": None}
    fatal = case["fatal"]

    class Item(UVMSequenceItem):
        def __init__(self, name="item"):
            super().__init__(name)
            self.val = None
    uvm_object_utils(Item)

    class Plain(UVMObject):
        def do_copy(self, rhs):
            check(False, "do_copy was called for a copy from None")
    uvm_object_utils(Plain)

    class Cb(UVMCallback):
        pass

    def take():
        # those made by steps that take time are judged at the end
        apart.extend(x for x in rep.msgs if x[1] in LATER)
        m = [x for x in rep.msgs if x[0] >= W and x[1] not in LATER]
        rep.msgs[:] = []
        return m

    def expect(what, sev, id_, *parts, n=1):
        m = take()
        check(len(m) == n and all(x[0] == sev and x[1] == id_ and all(p.lower() in x[2].lower() for p in parts) for x in m),
              "%s: reports are %r, expected %d x %r with id %s mentioning %r", what, m, n, sev, id_, parts)

    class Leaf(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)

        def pre_abort(self):
            aborted.append(self.get_full_name())

        def connect_phase(self, phase):
            phases.append(("connect", self.get_full_name()))

        def extract_phase(self, phase):
            phases.append(("extract", self.get_full_name()))
    uvm_component_utils(Leaf)
    uvm_register_cb(Leaf, Cb)

    class Drv(UVMDriver):
        def __init__(self, name, parent):
            super().__init__(name, parent)

        def pre_abort(self):
            aborted.append(self.get_full_name())

        async def run_phase(self, phase):
            n = 0
            while True:
                t = []
                await self.seq_item_port.get_next_item(t)
                mode = case["drv"][n % 4]
                if mode and not ended["fatal"]:
                    u = []
                    st["bad"] += 1
                    if mode == "twice":
                        await self.seq_item_port.get_next_item(u)
                        check(len(u) == 1 and u[0] is t[0], "the second get_next_item gave %r, not the item being processed", u)
                        expected.append((E, self.sqr.get_full_name(), "get_next_item called twice"))
                    else:
                        await self.seq_item_port.try_next_item(u)
                        check(u in ([], [None]), "try_next_item during an item gave %r", u)
                        expected.append((E, self.sqr.get_full_name(), "try_next_item called twice"))
                got.append(t[0])
                d = case["delays"][n % 3]
                if d:
                    await Timer(d * 1000, "ps")
                self.seq_item_port.item_done()
                n += 1

    class Seq(UVMSequence):
        steps = []

        async def body(self):
            last = None
            for n, s in enumerate(self.steps):
                if s[0] == "wait":
                    await Timer(s[1] * 1000, "ps")
                elif s[0] == "item":
                    it = Item("i%d" % n)
                    it.val = s[1]
                    sent[self].append(it)
                    await self.start_item(it)
                    await self.finish_item(it)
                    st["items"] += 1
                    if last == "bad":
                        st["between"] += 1
                else:
                    await self.top.mild(s[1], self)
                last = s[0]
    uvm_object_utils(Seq)

    class Orphan(UVMSequence):
        """ends although start_item calls of its own and of a child wait for a grant"""
        async def body(self):
            for k in range(self.n):
                cocotb.start_soon(self.start_item(Item("o%d" % k)))
            if self.kid is not None:
                cocotb.start_soon(self.kid.start(self.get_sequencer(), self))
            if self.n:
                await Timer(100, "ps")

    class Slow(UVMSequence):
        """takes time between start_item and finish_item"""
        async def body(self):
            it = self.it = Item("slow")
            await self.start_item(it)
            await Timer(self.d, "ps")
            await self.finish_item(it)
            self.over = True

    class Twice(UVMSequence):
        async def body(self):
            it = Item("it")
            sent[self].append(it)
            for k in range(self.n):
                await self.start_item(it)
                await self.finish_item(it)
                got.remove(it)
            got.append(it)
            take()
            self.top.dying("SNDREQ", "without wait_for_grant")
            await self.finish_item(it)
            self.top.survived()

    class Rel(UVMSequence):
        """never relevant: wait_for_relevant returns in bursts, in the end without taking time"""
        def is_relevant(self):
            return 0

        async def wait_for_relevant(self):
            b = self.bursts
            if b and self.k >= b[0]:
                b.pop(0)
                self.k = 0
            if self.k == 0:
                await Timer(700, "ps")
            self.k += 1

        async def body(self):
            await self.start_item(Item("never"))
            check(False, "a sequence that is never relevant was granted")

    class Bare(UVMSequence):
        pass
    uvm_object_utils(Bare)

    class Top(UVMTest):
        def __init__(self, name="", parent=None):
            super().__init__(name, parent)

        def pre_abort(self):
            aborted.append(self.get_full_name())

        def build_phase(self, phase):
            super().build_phase(phase)
            self.sqr = UVMSequencer("sqr", self)
            self.drv = Drv("drv", self)
            self.drv.sqr = self.sqr
            self.spare_sqr = UVMSequencer("spare", self)
            self.orph_sqr = UVMSequencer("orph", self)
            self.try_sqr = UVMSequencer("try", self)
            self.a = Leaf("a", self)
            self.b = Leaf("b", self)
            if fatal == "dupchild":
                rep.msgs[:] = []
                self.dying("CLDEXT", "'a'", "already has a child by that name")
                Leaf("a", self)
                self.survived()
            if fatal == "duptop":
                Leaf("other_top", None)
                self.dying("CLDEXT", "'other_top'", "not unique")
                Leaf("other_top", None)
                self.survived()

        def connect_phase(self, phase):
            self.drv.seq_item_port.connect(self.sqr.seq_item_export)

        def dying(self, id_, *parts):
            check(not take(), "reports before the fatal one")
            ended["fatal"] = (id_, parts, len(phases), [x for x in got])

        def survived(self):
            check(False, "the test went on after %s", ended["fatal"])

        async def mild(self, kind, seq):
            rest = take()
            check(not rest, "reports from legal use: %r", rest)
            st["bad"] += 1
            st["n"] += 1
            a, b = self.a, self.b
            kids = [c.get_name() for c in self.children()]
            if kind == "create":
                check(a.create("x") is None, "create() of a component returned something")
                expect(kind, E, "ILLCRT", "create_component")
            elif kind == "clone":
                check(a.clone() is None, "clone() of a component returned something")
                expect(kind, E, "ILLCLN", a.get_full_name())
            elif kind == "rename":
                a.set_name("zz")
                expect(kind, E, "INVSTNM", "zz")
                eq((a.get_name(), a.get_full_name()), ("a", "uvm_test_top.a"), "names after a refused set_name")
            elif kind == "lookup":
                check(self.lookup("nobody") is None and self.lookup("a.b") is None, "lookup found something")
                m = take()
                check(len(m) == 2 and all(x[:2] == (W, "Lookup Error") for x in m) and "nobody" in m[0][2], "lookup: %r", m)
                check(self.lookup("a") is a, "lookup of a")
            elif kind == "findnone":
                check(root.find("no*where") is None, "find found something")
                expect(kind, W, "CMPNFD", "no*where")
            elif kind == "findmany":
                check(root.find("*uvm_test_top.?") in (a, b), "find gave another component")
                expect(kind, W, "MMATCH", "2 components", "*uvm_test_top.?")
            elif kind == "typdup":
                factory.set_type_override_by_type(Leaf.type_id.get(), Leaf.type_id.get())
                expect(kind, W, "TYPDUP", "Leaf")
                check(type(factory.create_object_by_name("Item", "", "x")) is Item, "creation by name")
            elif kind == "namedup":
                factory.set_type_override_by_name("Item", "Item")
                expect(kind, W, "TYPDUP", "Item")
                check(type(factory.create_object_by_type(Item.type_id.get(), "", "x")) is Item, "creation by type")
            elif kind == "cbnone":
                UVMCallbacks.add(a, None)
                expect(kind, E, "CBUNREG", a.get_full_name())
                check(None not in self.attached(a), "None was registered as a callback")
            elif kind == "cbtwice":
                c = Cb("c%d" % st["n"])
                UVMCallbacks.add(b, c)
                check(not take(), "reports from a legal registration")
                UVMCallbacks.add(b, c)
                expect(kind, W, "CBPREG", c.get_name(), b.get_full_name())
                eq(self.attached(b).count(c), 1, "times the callback is registered")
            elif kind == "cbtwtwice":
                c = Cb("w%d" % st["n"])
                UVMCallbacks.add(None, c)
                check(not take(), "reports from a legal registration")
                UVMCallbacks.add(None, c)
                expect(kind, W, "CBPREG", c.get_name())
            elif kind == "domain":
                UVMDomain("dom%d" % st["n"])
                check(not take(), "reports from a legal domain")
                UVMDomain("dom%d" % st["n"])
                expect(kind, E, "UNIQDOMNAM", "dom%d" % st["n"])
            elif kind in ("objimp", "objbuild"):
                common = UVMDomain.get_common_domain()
                ph = common.find(UVMBuildPhase.get()) if kind == "objbuild" else UVMRunPhase.get()
                before = self.run_ph.get_objection().get_objection_count(self)
                ph.raise_objection(self, "why", 2)
                expect(kind, E, "UVM/PH/NULL_OBJECTION", self.get_full_name(), "raise 2 objections", ph.get_name())
                ph.drop_objection(self)
                expect(kind, E, "UVM/PH/NULL_OBJECTION", self.get_full_name(), "drop an objection", ph.get_name())
                eq(self.run_ph.get_objection().get_objection_count(self), before, "objections to the run phase")
            elif kind == "nobody":
                s = Bare("bare")
                await s.start(self.sqr if st["n"] % 2 else None, seq)
                expected.append((W, "uvm_sequence_base", "body"))
            elif kind == "hstob":
                self.sqr.set_num_last_reqs(1500)
                expect(kind, W, "HSTOB", "1024")
                eq(self.sqr.get_num_last_reqs(), 1024, "size of the request history")
            elif kind in ("timeneg", "decneg", "toodecr"):
                t = UVMTLMTime("tm%d" % st["n"], 1.0e-12)
                t.incr(5.0, 1.0, 1.0e-12)
                check(not take(), "reports from a legal increment")
                if kind == "timeneg":
                    t.incr(-1.0, 1.0, 1.0e-12)
                    expect(kind, E, "UVM/TLM/TIMENEG", t.get_name())
                    eq(t.get_realtime(1, 1.0e-12), 5.0, "time")
                elif kind == "decneg":
                    t.decr(-1.0, 1.0, 1.0e-12)
                    expect(kind, E, "UVM/TLM/TIMENEG", t.get_name())
                    eq(t.get_realtime(1, 1.0e-12), 5.0, "time")
                else:
                    t.decr(6.0, 1.0, 1.0e-12)
                    expect(kind, E, "UVM/TLM/TOODECR", t.get_name())
                    eq(t.get_realtime(1, 1.0e-12), 0, "time")
            elif kind == "copynone":
                p = Plain("p")
                p.copy(None)
                expect(kind, W, "NoneCP")
            elif kind == "cmppair":
                p, q = UVMClassPair("p", Plain("x"), Plain("y")), Plain("q")
                check(not p.compare(q), "a pair compared equal to something else")
                m = [x for x in take() if x[0] > W]
                check(all(x[:2] == (E, "WRONG_TYPE") for x in m), "comparing a pair: %r", m)
            elif kind == "rspover":
                s = Bare("over%d" % st["n"])
                s.set_response_queue_depth(1)
                x, y = Item("x"), Item("y")
                s.put_response(x)
                check(not take(), "reports from a legal response")
                s.put_response(y)
                expect(kind, E, s.get_full_name(), "overflow")
                t = []
                await s.get_response(t)
                check(t[0] is x, "the queued response was lost")
            elif kind == "strayrsp":
                x = Item("x")
                x.set_sequence_id(99999)
                self.sqr.put_response(x)
                infos = [m for m in rep.msgs if m[1] == "Sequencer"]
                check(not take() and len(infos) == 1 and infos[0][0] == I, "a response for no sequence: %r", infos)
            elif kind == "orphan" and "orphan" not in st:
                st["orphan"] = 1
                n, kid = case["orph"]
                o = Orphan("o")
                o.n, o.kid = n, None
                if kid:
                    o.kid = Orphan("kid")
                    o.kid.n, o.kid.kid = 1, None

                    async def kb(self=o.kid):
                        await self.start_item(Item("k"))
                    o.kid.body = kb
                await o.start(self.orph_sqr)
                m = [x for x in rep.msgs if x[1] == "SEQFINERR"]
                check(len(m) == n + kid and all(x[0] == E and "o" in x[2] for x in m), "%d requests left behind: reports are %r", n + kid, m)
                if kid:
                    eq(len([x for x in m if o.kid.get_full_name() in x[2]]), 1, "reports about the child's request")
                rep.msgs[:] = [x for x in rep.msgs if x not in m]
                q = Slow("q")
                q.d = 0
                cocotb.start_soon(q.start(self.orph_sqr))
                t = []
                await self.orph_sqr.get_next_item(t)
                check(t[0] is q.it, "a request of the finished sequence was granted")
                self.orph_sqr.item_done()
                await Timer(10, "ps")
                check(hasattr(q, "over"), "finish_item has not returned after item_done")
            elif kind == "tryblocked" and "try" not in st:
                st["try"] = 1
                q = Slow("q")
                q.d = 40
                cocotb.start_soon(q.start(self.try_sqr))
                await Timer(10, "ps")
                t = []
                await self.try_sqr.try_next_item(t)
                check(t in ([], [None]), "try_next_item gave %r before finish_item was called", t)
                m = [x for x in rep.msgs if x[1] == "TRY_NEXT_BLOCKED"]
                check(len(m) == 1 and m[0][0] == E and q.get_full_name() in m[0][2], "try_next_item of a slow sequence: %r", m)
                rep.msgs[:] = [x for x in rep.msgs if x not in m]
                await Timer(40, "ps")
                self.try_sqr.item_done()
                await Timer(10, "ps")
                check(hasattr(q, "over"), "finish_item has not returned after item_done")
            eq([c.get_name() for c in self.children()], kids, "%s: children of the test" % kind)

        def children(self):
            out = []
            self.get_children(out)
            return out

        def attached(self, c):
            out, it = [], UVMCallbackIter(c)
            cb = it.first()
            while cb is not None:
                out.append(cb)
                cb = it.next()
            return out

        async def run_phase(self, phase):
            phase.raise_objection(self)
            self.run_ph = phase
            ts = []
            for i, steps in enumerate(case["seqs"]):
                s = Seq("s%d" % i)
                s.steps, s.top = steps, self
                sent[s] = []
                ts.append(cocotb.start_soon(s.start(self.sqr)))
            if case["late"]:
                await Timer(case["late"] * 500, "ps")
            else:
                for t in ts:
                    await t
            if fatal:
                if fatal in ("running", "runningseq"):
                    s = Seq("again")
                    s.steps, s.top = [["wait", 5]], self
                    sent[s] = []
                    cocotb.start_soon(s.start(self.sqr))
                    await Timer(500, "ps")
                    take()
                await self.die(phase)
                self.survived()
            for t in ts:
                await t
            await Timer(3000, "ps")
            check(not take(), "reports from legal use")
            key = lambda x: (x[1], "try" in x[2].lower())
            apart.sort(key=key)
            expected.sort(key=key)
            check(len(apart) == len(expected) and all(a[:2] == b[:2] and b[2] in a[2].lower() for a, b in zip(apart, expected)),
                  "reports about sequences without body and items taken twice are %r, expected %r", apart, expected)
            phase.drop_objection(self)
            st["over"] = 1

        async def die(self, phase):
            s = Seq("bad_seq")
            s.steps = []
            sent[s] = []
            k = fatal
            common = UVMDomain.get_common_domain()
            take()

            class NewPhase(UVMTaskPhase):
                def get_type_name(self):
                    return "new_phase"
            new = NewPhase("new_phase")
            if k == "late":
                self.dying("ILLCRT", "'late'", "'uvm_test_top.a'")
                Leaf("late", self.a)
            elif k == "lateroot":
                self.dying("ILLCRT", "'late'")
                Leaf.type_id.create("late", None)
            elif k in ("running", "runningseq"):
                r = [x for x in sent if x.get_name() == "again"][0]
                self.dying("SEQ_NOT_DONE", "again")
                await r.start(self.sqr if k == "running" else None)
            elif k == "pri":
                self.dying("SEQPRI", "bad_seq", "-5")
                await s.start(self.sqr, None, -5)
            elif k == "noneitem":
                s.set_sequencer(self.sqr)
                self.dying("NoneITM", s.get_full_name())
                await s.start_item(None)
            elif k == "noseq":
                self.dying("SEQ", s.get_full_name())
                await s.start_item(Item("it"))
            elif k == "finnoseq":
                self.dying("STRITM", "sequencer")
                await s.finish_item(Item("it"))
            elif k == "itemdone":
                sq = self.spare_sqr
                self.dying(sq.get_full_name(), "item_done")
                sq.item_done()
            elif k == "rspnone":
                self.dying("SQRPUT", "null response")
                self.sqr.put_response(None)
            elif k == "rspid":
                self.dying("SQRPUT", "sequence_id")
                self.sqr.put_response(Item("it"))
            elif k == "send":
                s.set_sequencer(self.sqr)
                self.dying("SNDREQ", "without wait_for_grant")
                self.sqr.send_request(s, Item("it"))
            elif k == "sendnull":
                self.dying("SNDREQ", "null")
                self.sqr.send_request(None, Item("it"))
            elif k == "fintwice":
                q = Twice("twice")
                q.n, q.top = case["rel"][2], self
                sent[q] = []
                await q.start(self.sqr)
            elif k == "relloop":
                q = Rel("rel")
                mx, bursts, _ = case["rel"]
                if mx:
                    self.spare_sqr.set_max_zero_time_wait_relevant_count(mx)
                mx = mx or 10
                q.bursts, q.k = [min(b, mx) for b in bursts], 0
                self.dying("SEQRELEVANTLOOP", "wait_for_relevant")
                cocotb.start_soon(q.start(self.spare_sqr))
                st["rel"] = q, mx
                await self.spare_sqr.get_next_item([])
            elif k == "phnull":
                self.dying("PH/NULL")
                common.add(None)
            elif k in ("phwith", "phbefore", "phafter"):
                self.dying("PH_BAD_ADD", "cannot find", k[2:] + "_phase", "'new_phase'")
                common.add(NewPhase("p2"), **{k[2:] + "_phase": new})
            elif k == "phboth":
                self.dying("PH_BAD_ADD", "both")
                common.add(new, with_phase=UVMRunPhase.get(), after_phase=UVMBuildPhase.get())
            elif k == "phbegin":
                self.dying("PH_BAD_ADD", "before begin node")
                common.add(new, before_phase=common)
            elif k == "second":
                self.dying("TTINST", "uvm_test_top")
                await run_test("Top")
            elif k == "copypair":
                p = UVMClassPair("p", Plain("x"), Plain("y"))
                self.dying("WRONG_TYPE")
                p.copy(Item("q"))
            elif k in ("incrscale", "decrscale"):
                t = UVMTLMTime("tm", 1.0e-12)
                self.dying("UVM/TLM/BADSCALE")
                t.incr(1.0, 0, 1.0e-12) if k[0] == "i" else t.decr(1.0, 0, 1.0e-12)
    uvm_component_utils(Top)
    fatal_end = False
    try:
        if fatal == "unknown":
            ended["fatal"] = ("INVTST", ("Nope",), 0, [])
            sim(run_test("Nope"))
        elif fatal == "empty":
            ended["fatal"] = ("NOCOMP", ("No components",), 0, [])
            sim(run_test(""))
        else:
            uvm_run(Top)
    except Exception as e:
        if type(e).__name__ != "UVMFinishError":
            raise
        fatal_end = True
    eq(fatal_end, fatal is not None, "whether the test ended with a fatal report (%s): %r" % (fatal, rep.errors()[:2]))
    for s, its in sent.items():
        mine = [x for x in got if x in its]
        if fatal is None:
            eq([x.val for x in mine], [x[1] for x in s.steps if x[0] == "item"], "items of %s delivered" % s.get_name())
        check(mine == its[:len(mine)], "items of %s were delivered out of order or twice: %r", s.get_name(), [x.val for x in mine])
    if fatal is None:
        check("over" in st, "the test did not finish: %r", rep.errors()[:3])
        eq(len(got), st["items"], "items delivered")
        check(not aborted, "pre_abort was called without a fatal report")
        eq([x for x in phases if x[0] == "extract"], [("extract", "uvm_test_top.a"), ("extract", "uvm_test_top.b")], "extract phases")
    else:
        id_, parts, nph, _ = ended["fatal"]
        bad = rep.of(F)
        check(len(bad) == 1 and bad[0][1] == id_ and all(p.lower() in bad[0][2].lower() for p in parts),
              "%s: fatal reports are %r, expected one with id %s mentioning %r", fatal, bad, id_, parts)
        eq(len(phases), nph, "phases started by the components after the fatal report (%s): %r" % (fatal, phases[nph:]))
        if fatal == "relloop":
            q, mx = st["rel"]
            check(not q.bursts and q.k in (mx + 1, mx + 2), "SEQRELEVANTLOOP after %d returns without time passing (maximum %d), %r to come", q.k, mx, q.bursts)
        if fatal in ("unknown", "empty"):
            check(not aborted, "pre_abort of no component")
        else:
            want = ["uvm_test_top.drv", "uvm_test_top.a", "uvm_test_top.b", "uvm_test_top"] + (["other_top"] if fatal == "duptop" else [])
            eq(sorted(aborted), sorted(want), "components on which pre_abort was called (%s)" % fatal)
            check(all(aborted.index(x) < aborted.index("uvm_test_top") for x in want[:3]), "pre_abort is not bottom-up: %r", aborted)
    return {"nontrivial": int(st["between"] > 0 or fatal is not None), "misuses": st["bad"], "items": len(got), "fatal": int(fatal is not None)}
