from util import *

ID = "S01"
META = {
    "title": "Every sequence item reaches the driver exactly once, intact and in order",
    "statement": "For every set of concurrent sequences and sub-sequences on a sequencer, every item or do-macro style they use and every way the driver takes items (get_next_item, try_next_item, get, peek, with any delays), each item finished by a sequence is delivered to the driver exactly once, in the order each sequence issued it, as the object it was when finish_item was called. At most one sequence is granted at a time; finish_item returns exactly when the driver completes that item and no other; pre_do, mid_do and post_do run around it in order; and no sequence is left hanging while the driver keeps asking.",
    "over": ["histories", "schedules"],
    "quant": "all sets of sequences, nesting, parallel children, item styles, driver styles, and relative timing including simultaneous requests and completions",
    "why": "Tests run one or two sequences with one driver style; lost completions and duplicated items come from particular overlaps.",
    "files": ["src/uvm/seq/uvm_sequencer_base.py", "src/uvm/seq/uvm_sequencer.py", "src/uvm/seq/uvm_sequencer_param_base.py", "src/uvm/seq/uvm_sequence_base.py", "src/uvm/macros/uvm_sequence_defines.py", "src/uvm/tlm1/uvm_sqr_connections.py", "src/uvm/comps/uvm_driver.py"],
    "mech": [["UVMSequencerBase.wait_for_grant / m_select_sequence / wait_for_item_done", "src/uvm/seq/uvm_sequencer_base.py"], ["UVMSequenceBase.start_item / finish_item", "src/uvm/seq/uvm_sequence_base.py"], ["UVMSequencer.get_next_item / try_next_item / item_done / get / peek", "src/uvm/seq/uvm_sequencer.py"]],
    "note": "Whole tests on a simulated kernel: random sequence sets against random drivers; the full handshake history is judged.",
}
RULE = "two or more sequences were waiting for the driver at the same time"
N = (90, 9000)
ASSUMPTIONS = ["one thread per sequence object issues items", "with try_next_item the sequences take no time between start_item and finish_item"]
STYLES = ["std", "std", "send", "do", "exec"]


def seqspec(g, depth, zero):
    steps = []
    for _ in range(g.i(1, 4)):
        k = g.i(0, 9)
        if k < 6 or not depth:
            steps.append(["item", g.pick(STYLES), g.pick([0, 0, 1]) if not zero else 0, g.i(0, 255)])
        elif k < 8:
            steps.append(["wait", g.i(1, 3)])
        elif k == 8:
            steps.append(["sub", seqspec(g, depth - 1, zero), g.pick(["start", "send"])])
        else:
            steps.append(["par", [seqspec(g, depth - 1, zero) for _ in range(2)]])
    return steps


def strategy():
    def fn(g):
        drv = g.pick(["next", "next", "try", "get", "peek", "mix"])
        zero = drv in ("try", "mix")
        return {"drv": drv, "seqs": [[g.pick([0, 0, 1, 2]), seqspec(g, 2, zero)] for _ in range(g.i(1, 4))],
                "d1": [g.pick([0, 0, 1, 2]) for _ in range(4)], "d2": [g.pick([0, 0, 0, 1, 3]) for _ in range(5)],
                "modes": [g.i(0, 3) for _ in range(5)], "start": g.pick([0, 0, 2])}
    return gen(fn, 300)


def nitems(steps):
    return sum(1 if s[0] == "item" else nitems(s[1]) if s[0] == "sub" else sum(map(nitems, s[1])) if s[0] == "par" else 0 for s in steps)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent, UVMSequence, UVMSequenceItem, UVMSequencer, UVMDriver
    from uvm.macros import uvm_object_utils, uvm_component_utils
    from uvm.macros.uvm_sequence_defines import uvm_send, uvm_do_with
    rep = Reports()
    st = {"wait": 0, "maxwait": 0, "granted": None, "done": 0, "items": 0, "subs": 0}
    issued, got, finished = {}, [], {}
    now = lambda: cocotb.utils.get_sim_time("ps")

    class Item(UVMSequenceItem):
        def __init__(self, name="item"):
            super().__init__(name)
            self.val = -1
            self.uid = None

        def randomize_with(self, *c):
            self.val = self.newval
            return True
    uvm_object_utils(Item)

    class Seq(UVMSequence):
        steps, uid = [], "x"

        def __init__(self, name="seq"):
            super().__init__(name)
            self.hooks = []

        def pre_do(self, is_item):
            self.hooks.append(("pre", is_item))
            if is_item:
                grant(self)

        def mid_do(self, item):
            self.hooks.append(("mid", item))

        def post_do(self, item):
            self.hooks.append(("post", item))
            # the item was completed by the driver, just now
            if item.is_item():
                complete(self, item)

        async def body(self):
            for n, s in enumerate(self.steps):
                if s[0] == "wait":
                    await Timer(s[1] * 1000, "ps")
                elif s[0] == "sub":
                    st["subs"] += 1
                    c = child(self, s[1], "%s.%d" % (self.uid, n))
                    self.hooks.clear()
                    if s[2] == "start":
                        await c.start(self.m_sequencer, self)
                    else:
                        c.set_sequencer(self.m_sequencer)
                        await uvm_send(self, c)
                    check(c.over, "start() of %s returned before its body ended", c.uid)
                    eq(self.hooks, [("pre", 0), ("mid", c), ("post", c)], "hooks around " + c.uid)
                elif s[0] == "par":
                    cs = [child(self, x, "%s.%d.%d" % (self.uid, n, i)) for i, x in enumerate(s[1])]
                    ts = [cocotb.start_soon(c.start(self.m_sequencer, self)) for c in cs]
                    for t in ts:
                        await t
                else:
                    await self.item(n, s)
            self.over = True

        async def item(self, n, s):
            _, style, gap, val = s
            it = Item("it%d" % n)
            it.uid, it.newval = "%s.%d" % (self.uid, n), val
            issued.setdefault(self.uid, []).append(it.uid)
            self.hooks.clear()
            st["wait"] += 1
            st["maxwait"] = max(st["wait"], st["maxwait"])
            if style == "std":
                await self.start_item(it)
                eq(self.hooks, [("pre", 1)], "hooks after start_item")
                if gap:
                    await Timer(gap * 1000, "ps")
                it.val = val
                await self.finish_item(it)
            elif style == "send":
                it.val = val
                await uvm_send(self, it)
            elif style == "do":
                await uvm_do_with(self, it, lambda: True)
            else:
                it.val = val
                await self.m_sequencer.execute_item(it)
                complete(self, it)
            st["wait"] -= 1
            if style != "exec":
                eq(self.hooks, [("pre", 1), ("mid", it), ("post", it)], "hooks around " + it.uid)
                check(it.get_parent_sequence() is self, "parent sequence of %s", it.uid)
            check(it.get_sequencer() is self.m_sequencer, "sequencer of %s", it.uid)
    uvm_object_utils(Seq)

    def child(parent, steps, uid):
        c = Seq("s" + uid.replace(".", "_"))
        c.steps, c.uid, c.over = steps, uid, False
        return c

    def grant(seq):
        check(st["granted"] is None, "%s was granted while %s holds the grant", seq.uid, st["granted"])
        st["granted"] = seq.uid

    def complete(seq, item):
        check(item.uid in finished, "%s was told that %s is done but the driver has not finished it", seq.uid, item.uid)
        eq(now(), finished[item.uid], "time at which finish_item of %s returned" % item.uid)

    class Drv(UVMDriver):
        async def run_phase(self, phase):
            port = self.seq_item_port
            await Timer(case["start"] * 1000, "ps")
            k = 0
            while True:
                mode = {"next": 0, "try": 1, "get": 2, "peek": 3}.get(case["drv"], case["modes"][k % 5])
                d1, d2 = case["d1"][k % 4], case["d2"][k % 5]
                t = []
                st["ask"] = mode != 1
                if mode == 1:
                    await port.try_next_item(t)
                    if not t:
                        await Timer(1000, "ps")
                        k += 1
                        continue
                elif mode == 2:
                    await port.get(t)
                    self.take(t)
                    self.finish(t[0])
                    if d2:
                        await Timer(d2 * 1000, "ps")
                    k += 1
                    continue
                elif mode == 3:
                    await port.peek(t)
                    st["ask"] = False
                    p2 = []
                    await port.peek(p2)
                    check(len(p2) == 1 and p2[0] is t[0], "peek saw another item")
                    p2 = []
                    if d1:
                        await Timer(d1 * 1000, "ps")
                    await port.get(p2)
                    check(len(p2) == 1 and p2[0] is t[0], "get returned another item than peek")
                    self.take(p2)
                    self.finish(t[0])
                    if d2:
                        await Timer(d2 * 1000, "ps")
                    k += 1
                    continue
                else:
                    r = await port.get_next_item(t)
                    check(r is t[0], "get_next_item returned and output different items")
                self.take(t)
                check(self.sqr.get_current_item() is t[0], "get_current_item() is not the item being driven")
                if d1:
                    await Timer(d1 * 1000, "ps")
                self.finish(t[0])
                port.item_done()
                if d2:
                    await Timer(d2 * 1000, "ps")
                k += 1

        def take(self, t):
            st["ask"] = False
            eq(len(t), 1, "items output to the driver")
            it = t[0]
            check(it.uid not in [x.uid for x in got], "%s was delivered twice", it.uid)
            eq(it.val, it.newval, "value of %s at the driver" % it.uid)
            got.append(it)

        def finish(self, it):
            finished[it.uid] = now()
            st["granted"] = None

    async def run_phase(self, phase):
        phase.raise_objection(self)
        ts, tops = [], []

        async def one(i, dt, steps):
            if dt:
                await Timer(dt * 1000, "ps")
            s = child(None, steps, str(i))
            tops.append(s)
            await s.start(self.sqr)
            check(s.over, "start() of %s returned before its body ended", s.uid)
            st["done"] += 1
        for i, (dt, steps) in enumerate(case["seqs"]):
            ts.append(cocotb.start_soon(one(i, dt, steps)))
        limit = 20 + 8 * sum(nitems(s[1]) + 2 for s in case["seqs"]) * 3
        for _ in range(limit):
            if st["done"] == len(ts):
                break
            await Timer(500, "ps")
            check(not (st.get("ask") and st["wait"] and st["granted"] is None),
                  "at %d the driver waits for an item and a sequence waits for the driver", now())
            await Timer(500, "ps")
        hung = [s.uid for s in tops if not s.over]
        check(st["done"] == len(ts), "sequences %r hang although the driver keeps asking (got %r)", hung, [x.uid for x in got])
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr = UVMSequencer("sqr", self)
        self.drv = Drv("drv", self)
        self.drv.sqr = self.sqr

    def connect(self, phase):
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
    top = comp_class("S01Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    n = sum(nitems(s[1]) for s in case["seqs"])
    eq(len(got), n, "items delivered")
    eq(st["done"], len(case["seqs"]), "sequences done")
    for u, l in issued.items():
        eq([x.uid for x in got if x.uid.rsplit(".", 1)[0] == u], l, "order of the items of " + u)
    rep.none_bad()
    return {"nontrivial": st["maxwait"] >= 2, "items": n, "subs": st["subs"]}
