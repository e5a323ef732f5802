from util import *

ID = "S05"
META = {
    "title": "Items and sub-sequences run on the sequencer they are meant for",
    "statement": "For every tree of sequences spread over several sequencers, virtual ones (started on no sequencer) included, each item goes to exactly one sequencer: the one given to start_item or to a do_on/create_on macro, else the item's own, else its sequence's. A sub-sequence runs on the sequencer it is started on, else its parent's. On each sequencer the items of a sequence arrive once each and in order. The do macros create, randomize under their constraints after the grant (sequences before they start, unless do_not_randomize is set), run the hooks in order and not pre_body/post_body; the send macros do not randomize. Depth, parent, root sequence, full name, sequence path and priority follow that structure.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all trees of sequences, sequencers at every level, item and macro styles, constraints, priorities and driver delays",
    "why": "The tests use one sequencer at a time and a few of the macros; which sequencer is used when several could be is nowhere compared.",
    "files": ["src/uvm/macros/uvm_sequence_defines.py", "src/uvm/seq/uvm_sequence_base.py", "src/uvm/seq/uvm_sequence_item.py"],
    "mech": [["uvm_create_on / uvm_do_on_pri_with / uvm_send_pri and their short forms", "src/uvm/macros/uvm_sequence_defines.py"], ["UVMSequenceBase.start / start_item / create_item", "src/uvm/seq/uvm_sequence_base.py"], ["UVMSequenceItem.set_item_context / get_root_sequence / get_sequence_path / get_full_name / get_depth", "src/uvm/seq/uvm_sequence_item.py"]],
    "note": "Whole tests with three sequencers and drivers on a simulated kernel; each delivery is compared with the sequencer the rules select.",
}
RULE = "items of one sequence went to two sequencers, or a sub-sequence ran on another sequencer than its parent"
N = (70, 9000)
ASSUMPTIONS = ["the do macros are given items and sequences that exist (as in the examples), which they do not replace"]
ITEM = ["std", "stdseqr", "itemseqr", "both", "do", "do_with", "do_pri_with", "do_on", "do_on_with", "do_on_pri_with", "send", "send_pri", "create_send", "create_on_send"]
SUB = ["start", "startnone", "startpri", "do", "do_with", "do_on", "do_on_with", "do_on_pri_with", "send", "create_on_send"]
DOM = 16


def seqspec(g, depth):
    steps = []
    for _ in range(g.i(1, 4)):
        k = g.i(0, 6)
        c = sorted(set(g.i(0, DOM - 1) for _ in range(g.i(1, 4))))
        if k == 6:
            steps.append(["wait", g.i(1, 2)])
        elif k == 5 and depth:
            steps.append(["sub", g.pick(SUB), g.i(0, 2), c, g.pick([-1, 50, 200]), g.b(1, 4), seqspec(g, depth - 1)])
        else:
            steps.append(["item", g.pick(ITEM), g.i(0, 2), c, g.pick([-1, 50, 200]), g.i(0, 2)])
    return steps


def strategy():
    def fn(g):
        return {"tops": [[g.pick([None, 0, 1, 2]), seqspec(g, 2), g.pick([-1, 7])] for _ in range(g.i(1, 3))],
                "delays": [[g.pick([0, 0, 1]) for _ in range(3)] for _ in range(3)], "last": [g.pick([1, 0, 2, 5]) for _ in range(3)],
                "resize": [g.i(0, 12), g.i(0, 4)], "par": g.b()}
    return gen(fn, 240)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMSequence, UVMSequenceItem, UVMSequencer, UVMDriver, UVMTest, uvm_object_utils, uvm_component_utils
    from uvm.macros import uvm_sequence_defines as M
    rep = Reports()
    got = {0: [], 1: [], 2: []}
    want = []                   # (item, sequencer index, sequence, constraint)
    st = {"n": 0, "moved": 0, "subs": 0, "rnd": 0}
    sqrs = []

    class Item(UVMSequenceItem):
        def __init__(self, name="item"):
            super().__init__(name)
            self.val = -1
            self.uid = self.randomized_at = None
            self.rand("val", list(range(DOM)))

        def post_randomize(self):
            self.randomized_at = list(self.owner.hooks)
    uvm_object_utils(Item)

    class Seq(UVMSequence):
        def __init__(self, name="seq"):
            super().__init__(name)
            self.steps, self.uid, self.hooks, self.life, self.knob = [], name, [], [], -1
            self.used = set()
            self.over = False
            self.rand("knob", list(range(DOM)))

        async def pre_start(self):
            self.life.append("pre_start")

        async def pre_body(self):
            self.life.append("pre_body")

        async def post_body(self):
            self.life.append("post_body")

        async def post_start(self):
            self.life.append("post_start")

        def pre_do(self, is_item):
            self.hooks.append(("pre", bool(is_item)))

        def mid_do(self, item):
            self.hooks.append(("mid", item))

        def post_do(self, item):
            self.hooks.append(("post", item))

        async def body(self):
            self.life.append("body")
            if self.expect_sqr is not None or self.virtual_ok:
                check(self.get_sequencer() is self.expect_sqr, "%s runs on %r, expected %r", self.uid, self.get_sequencer(), self.expect_sqr)
            for n, s in enumerate(self.steps):
                if s[0] == "wait":
                    await Timer(s[1] * 1000, "ps")
                elif s[0] == "item":
                    await self.item(n, *s[1:])
                else:
                    await self.sub(n, *s[1:])
            self.over = True

        def con(self, c, name):
            return eval("lambda %s: %s in S" % (name, name), {"S": c})

        async def item(self, n, style, k, c, pri, own):
            own_sqr, mine, given = None, self.get_sequencer(), sqrs[k]
            if style in ("create_send", "create_on_send"):
                target = mine if style == "create_send" else given
                if target is None:
                    return
                it = (M.uvm_create(self, Item(), mine) if style == "create_send" else M.uvm_create_on(self, Item(), given))
                check(type(it) is Item, "uvm_create made %r", it)
                check(it.get_sequencer() is target and it.get_parent_sequence() is self, "%s: sequencer or parent of the created item", style)
                eq(it.val, -1, style + ": the value of an item that was created only")
            else:
                it = Item("it%d" % n)
                if style in ("itemseqr", "both") or (style in ("do_on", "do_on_with", "do_on_pri_with") and own == 0):
                    own_sqr = sqrs[own]
                    it.set_sequencer(own_sqr)
                target = given if style in ("stdseqr", "both", "do_on", "do_on_with", "do_on_pri_with") else own_sqr or mine
                if target is None:
                    return
            it.owner, it.uid = self, (self.uid, n)
            del self.hooks[:]
            self.used.add(target)
            want.append((it, target, self))
            rnd = style.startswith("do")
            con = self.con(c, "val")
            if not rnd:
                it.val = 100 + n
            if style == "std":
                await self.start_item(it)
                await self.finish_item(it)
            elif style in ("stdseqr", "both"):
                await self.start_item(it, pri, given)
                await self.finish_item(it, pri)
            elif style == "itemseqr":
                await self.start_item(it, pri)
                await self.finish_item(it)
            elif style == "do":
                await M.uvm_do(self, it)
            elif style == "do_with":
                await M.uvm_do_with(self, it, con)
            elif style == "do_pri_with":
                await M.uvm_do_pri_with(self, it, pri, con)
            elif style == "do_on":
                await M.uvm_do_on(self, it, given)
            elif style == "do_on_with":
                await M.uvm_do_on_with(self, it, given, con)
            elif style == "do_on_pri_with":
                await M.uvm_do_on_pri_with(self, it, given, pri, con)
            elif style == "send_pri":
                await M.uvm_send_pri(self, it, pri)
            else:
                await M.uvm_send(self, it)
            what = "%s item %d (%s)" % (self.uid, n, style)
            eq(self.hooks, [("pre", True), ("mid", it), ("post", it)], what + ": hooks")
            if rnd:
                st["rnd"] += 1
                eq(it.randomized_at, [("pre", True)], what + ": hooks called before the item was randomized")
                check(it.val in (c if "with" in style else range(DOM)), "%s: value %d breaks the constraint %r", what, it.val, c)
            else:
                eq(it.val, 100 + n, what + ": value of an item that is only sent")
                eq(it.randomized_at, None, what + ": randomization")
            check(got_by(it) is target, "%s: sent to %r, expected %r", what, got_by(it), target)
            check(it.get_sequencer() is target and it.get_parent_sequence() is self, "%s: sequencer or parent of the item", what)
            structure(it, what)

        async def sub(self, n, style, k, c, pri, norand, steps):
            given, mine = sqrs[k], self.get_sequencer()
            if style == "create_on_send":
                s = M.uvm_create_on(self, Seq("x"), given)
                check(type(s) is Seq and s.get_sequencer() is given, "uvm_create_on made %r on %r", s, s.get_sequencer())
                s.uid = "%s.%d" % (self.uid, n)
            else:
                s = Seq("%s_%d" % (self.uid, n))
            s.steps, s.do_not_randomize = steps, int(norand)
            target = given if style in ("start", "startpri", "do_on", "do_on_with", "do_on_pri_with", "send", "create_on_send") else mine
            s.expect_sqr, s.virtual_ok = target, True
            prio = pri if style in ("startpri", "do_on_pri_with") and pri >= 0 else self.get_priority()
            del self.hooks[:]
            st["subs"] += 1
            st["moved"] += target is not mine
            con = self.con(c, "knob")
            rnd = style.startswith("do") and not norand
            if style == "start":
                await s.start(given, self)
            elif style == "startpri":
                await s.start(given, self, pri)
            elif style == "startnone":
                await s.start(None, self)
            elif style == "do":
                await M.uvm_do(self, s)
            elif style == "do_with":
                await M.uvm_do_with(self, s, con)
            elif style == "do_on":
                await M.uvm_do_on(self, s, given)
            elif style == "do_on_with":
                await M.uvm_do_on_with(self, s, given, con)
            elif style == "do_on_pri_with":
                await M.uvm_do_on_pri_with(self, s, given, pri, con)
            else:
                s.set_sequencer(given)
                await M.uvm_send(self, s)
            what = "%s sequence %d (%s)" % (self.uid, n, style)
            check(s.over, "%s: its body has not ended", what)
            eq(s.life, ["pre_start", "pre_body", "body", "post_body", "post_start"] if style.startswith("start") else ["pre_start", "body", "post_start"], what + ": phases of the sub-sequence")
            eq(self.hooks, [("pre", False), ("mid", s), ("post", s)], what + ": hooks of the parent")
            eq(s.get_priority(), prio, what + ": priority")
            check(s.knob in (c if "with" in style else range(DOM)) if rnd else s.knob == -1, "%s: knob is %d, constraint %r, randomized %r", what, s.knob, c, rnd)
            structure(s, what)
    uvm_object_utils(Seq)

    def structure(x, what):
        chain, p = [], x.get_parent_sequence()
        while p is not None:
            chain.insert(0, p)
            p = p.get_parent_sequence()
        eq(x.get_depth(), len(chain) + 1, what + ": depth")
        check(x.get_root_sequence() is (chain[0] if chain else None), "%s: root sequence", what)
        eq(x.get_root_sequence_name(), chain[0].get_name() if chain else "", what + ": root sequence name")
        eq(x.get_sequence_path(), ".".join([c.get_name() for c in chain] + [x.get_name()]), what + ": sequence path")
        top = chain[0] if chain else x
        pre = [top.get_sequencer().get_full_name()] if top.get_sequencer() is not None else []
        eq(x.get_full_name(), ".".join(pre + [c.get_name() for c in chain] + [x.get_name() or "_item"]), what + ": full name")
        for q in sqrs:
            for c in chain:
                check(q.is_child(c, x), "%s: is_child of its ancestor %s", what, c.uid)
            for t in tops:
                if t not in chain:
                    check(not q.is_child(t, x), "%s: is_child of %s", what, t.uid)

    def got_by(it):
        at = [i for i in got for x in got[i] if x is it]
        check(len(at) == 1, "an item was delivered %d times", len(at))
        return sqrs[at[0]]
    tops = []

    class Drv(UVMDriver):
        async def run_phase(self, phase):
            n = 0
            size = case["last"][self.k]
            while True:
                t = []
                await self.seq_item_port.get_next_item(t)
                got[self.k].append(t[0])
                if case["resize"][0] == n:
                    size = case["resize"][1]
                    self.sqr.set_num_last_reqs(size)
                eq(self.sqr.get_num_last_reqs(), size, "history size of sequencer %d" % self.k)
                d = case["delays"][self.k][n % 3]
                if d:
                    await Timer(d * 1000, "ps")
                self.seq_item_port.item_done()
                n += 1

    class Top(UVMTest):
        def build_phase(self, phase):
            super().build_phase(phase)
            self.drvs = []
            for k in range(3):
                sqrs.append(UVMSequencer("sqr%d" % k, self))
                sqrs[k].set_num_last_reqs(case["last"][k])
                d = Drv("drv%d" % k, self)
                d.k, d.sqr = k, sqrs[k]
                self.drvs.append(d)

        def connect_phase(self, phase):
            for d in self.drvs:
                d.seq_item_port.connect(d.sqr.seq_item_export)

        async def run_phase(self, phase):
            phase.raise_objection(self)
            ts = []
            for i, (k, steps, pri) in enumerate(case["tops"]):
                s = Seq("top%d" % i)
                s.steps, s.expect_sqr, s.virtual_ok = steps, None if k is None else sqrs[k], True
                tops.append(s)
                t = cocotb.start_soon(s.start(s.expect_sqr, None, pri))
                if case["par"]:
                    ts.append(t)
                else:
                    await t
            for t in ts:
                await t
            for s, (k, steps, pri) in zip(tops, case["tops"]):
                eq(s.life, ["pre_start", "pre_body", "body", "post_body", "post_start"], "phases of a top sequence")
                eq(s.get_priority(), 100 if pri < 0 else pri, "priority of a top sequence")
            phase.drop_objection(self)
            st["end"] = 1
    uvm_component_utils(Top)
    uvm_run(Top)
    check("end" in st, "the test did not finish: %r", rep.errors()[:3])
    rep.none_bad()
    for i, q in enumerate(sqrs):
        mine = [it for it, t, _ in want if t is q]
        eq(len(got[i]), len(mine), "items delivered by sequencer %d" % i)
        for s in {s for _, t, s in want}:
            exp = [it for it, t, x in want if t is q and x is s]
            check([it for it in got[i] if it.owner is s] == exp, "order of the items of %s on sequencer %d", s.uid, i)
    spread = any(len(s.used) > 1 for _, _, s in want)
    return {"nontrivial": int(spread or st["moved"] > 0), "items": len(want), "subsequences": st["subs"], "randomized": st["rnd"]}
