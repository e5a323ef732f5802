from util import *
from regs import *

ID = "R11"
META = {
    "title": "Register accesses run through the caller's parent sequence and adapter",
    "statement": "For every mix of register and memory accesses, widths and threads: with a parent sequence given (running or not) every bus item is sent as its child, pre_do, mid_do and post_do are called on it for each bus item, mid_do and post_do once more with the register item at the first and last beat of each word, and on nobody else. If the adapter has a parent_sequence, a fresh clone of it, whose parent is the given one, takes that role for each access. During reg2bus, and not outside an access, adapter.get_item() is the register item of the access with its element, kind, value, path, map, priority, extension and call site. Without an adapter the sequencer gets that register item itself, once per access, and its status and value are the result. Accesses that wait for the sequencer together are granted by their priorities when its arbitration is strict. Beats of accesses to one register never interleave, and an access ends at the first beat that fails.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all register and bus widths, access kinds, parent sequences, adapter configurations, bus delays and errors, and thread interleavings",
    "why": "The tests start register sequences in one standard way; parents, parent sequences of adapters, abstract items and several threads are only met in real environments.",
    "files": ["src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg_adapter.py", "src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_item.py"],
    "mech": [["UVMRegMap.do_write / do_read / do_bus_write / do_bus_read", "src/uvm/reg/uvm_reg_map.py"], ["UVMReg.XatomicX", "src/uvm/reg/uvm_reg.py"], ["UVMRegAdapter.get_item / parent_sequence", "src/uvm/reg/uvm_reg_adapter.py"]],
    "note": "Whole tests on a simulated bus; the log of hooks, adapter calls and bus items is compared with the one prescribed for each access.",
}
RULE = "a parent sequence, a parent_sequence of the adapter or an adapter-less map took part in an access of several beats or threads"
N = (90, 9000)
ASSUMPTIONS = ["registers and memory words are multiples of the bus width", "no callbacks and no user front-doors", "a parent sequence serves one thread"]


def strategy():
    def fn(g):
        w = g.pick([1, 2, 4, 4, 8])
        regs = [w * g.pick([1, 1, 2, 2, 3, 4, 8]) for _ in range(g.i(1, 3))]
        regs = [min(x, 8 // w * w) for x in regs]
        word = min(w * g.pick([1, 1, 1, 2, 4]), 8 // w * w)
        nt = g.pick([1, 1, 1, 2, 2, 3])
        threads = []
        for _ in range(nt):
            ops = []
            for _ in range(g.i(1, 6 if nt == 1 else 4)):
                kind = g.pick(["write", "write", "read", "read", "mirror", "update", "mwrite", "mread", "mbwrite", "mbread"])
                if kind == "update" and nt > 1:
                    kind = "write"
                if word > w:
                    kind = kind.replace("mb", "m")       # bursts do not fit through a narrower bus
                burst = "mb" in kind
                ops.append({"k": kind, "r": g.i(0, len(regs) - 1), "v": g.bits(64), "off": g.i(0, 7), "len": g.i(1, 3), "par": g.i(0, 2),
                            "prior": g.pick([-1, -1, 7, 200]), "ext": g.b(1, 3), "map": g.b(1, 2), "line": g.i(0, 99),
                            "fail": g.pick([-1, 0, 1] if burst else [-1, -1, -1, -1, 0, 1, 2]) if nt == 1 else -1})
            threads.append(ops)
        return {"w": w, "regs": regs, "word": word, "threads": threads, "mode": g.pick(["plain", "plain", "pseq", "none"]), "rsp": g.b(1, 3),
                "delays": [g.pick([0, 0, 1, 2]) for _ in range(3)], "gap": [g.pick([0, 0, 1]) for _ in range(4)], "auto": g.b(3, 4), "sub": g.b(1, 3),
                "base": g.pick([0, 0, 0x1000]), "rank": [g.pick([1, 7, 50, 99, 150, 200, 900]) for _ in range(3)], "rpar": [g.b() for _ in range(3)]}
    return gen(fn, 420)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent, UVMObject, UVMSequence
    from uvm.macros import uvm_object_utils
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_item import UVMRegItem
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_FRONTDOOR, UVM_IS_OK, UVM_NOT_OK, UVM_NO_CHECK, UVM_READ, UVM_WRITE,
                                       UVM_BURST_READ, UVM_BURST_WRITE, UVM_REG, UVM_MEM)
    from uvm.base.uvm_object_globals import UVM_SEQ_ARB_STRICT_FIFO
    rep = Reports()
    w, word, mode = case["w"], case["word"], case["mode"]
    KIND = {"write": UVM_WRITE, "update": UVM_WRITE, "read": UVM_READ, "mirror": UVM_READ, "mwrite": UVM_WRITE, "mread": UVM_READ,
            "mbwrite": UVM_BURST_WRITE, "mbread": UVM_BURST_READ}
    store, st = {}, {"n": 0, "fail": -1, "ops": 0, "beats": 0, "failed": 0}
    events = []          # everything that happens, in order
    clones = []
    bus = []             # (kind, addr, data, parent, sequencer, ok)

    class Seq(UVMSequence):
        def __init__(self, name="Seq"):
            super().__init__(name)
            self.todo = None

        async def body(self):
            if self.todo is not None:
                await self.todo(self)

        def pre_do(self, is_item):
            events.append((self, "pre_do", bool(is_item)))

        def mid_do(self, item):
            events.append((self, "mid_do", item))

        def post_do(self, item):
            events.append((self, "post_do", item))
    uvm_object_utils(Seq)

    class PSeq(Seq):
        pass
    uvm_object_utils(PSeq)

    def dut(kind, addr, data, be):
        ok = st["n"] != st["fail"]
        st["n"] += 1
        res = 0
        if ok and kind == "write":
            store[addr] = data
        elif kind == "read":
            res = store.get(addr, 0)
        return res, ok

    def limit(n):
        return (1 << 8 * n) - 1
    addr_of, base = [], case["base"] + (0x100 if case["sub"] else 0)
    at = 0
    for nb in case["regs"]:
        addr_of.append(base + at)
        at += nb
    mem_at = at

    def beats(o):
        """[[addresses of a word], ...]"""
        if o["k"][0] != "m" or o["k"] == "mirror":
            return [[addr_of[o["r"]] + i * w for i in range(case["regs"][o["r"]] // w)]]
        n = o["len"] if "mb" in o["k"] else 1
        off = min(o["off"], 8 - n)
        return [[base + mem_at + (off + j) * word + i * w for i in range(word // w)] for j in range(n)]

    def peek(addrs):
        return sum(store.get(a, 0) << 8 * w * i for i, a in enumerate(addrs))

    async def op(self, o, what, parents, single):
        mem = o["k"] in ("mwrite", "mread", "mbwrite", "mbread")
        el = self.mem if mem else self.regs[o["r"]]
        size = word if mem else case["regs"][o["r"]]
        par = parents[o["par"]]
        ext = UVMObject("ext") if o["ext"] else None
        kw = {"path": UVM_FRONTDOOR, "parent": par, "prior": o["prior"], "extension": ext, "fname": "f%d" % o["line"], "lineno": o["line"]}
        if o["map"]:
            kw["_map"] = self.map
        words = beats(o)
        flat = [a for x in words for a in x]
        status, val = [], []
        vals = [(o["v"] >> 5 * j | j) & limit(size) for j in range(len(words))]
        wr = KIND[o["k"]] in (UVM_WRITE, UVM_BURST_WRITE)
        n_bus, n_ev, n_items, n_cl = len(bus), len(events), len(self.items), len(clones)
        st["n"] = 0
        fail = st["fail"] = o["fail"] if o["fail"] < (1 if mode == "none" else len(flat)) else -1
        before = [peek(x) for x in words]
        if not mem and single:
            mir = el.get_mirrored_value()
        if o["k"] == "write":
            await el.write(status, vals[0], **kw)
        elif o["k"] == "read":
            await el.read(status, val, **kw)
        elif o["k"] == "mirror":
            await el.mirror(status, UVM_NO_CHECK, **kw)
        elif o["k"] == "update":
            vals[0] = el.get_mirrored_value() ^ (vals[0] or 1)
            el.set(vals[0])
            await el.update(status, **kw)
        else:
            off = min(o["off"], 8 - len(words))
            if o["k"] == "mwrite":
                await el.write(status, off, vals[0], **kw)
            elif o["k"] == "mread":
                await el.read(status, off, val, **kw)
            elif o["k"] == "mbwrite":
                await el.burst_write(status, off, list(vals), **kw)
            else:
                val = [0] * len(words)
                await el.burst_read(status, off, val, **kw)
        st["ops"] += 1
        if not single:
            eq(status, [UVM_IS_OK], what + ": status")
            return
        eq(status, [UVM_NOT_OK if fail >= 0 else UVM_IS_OK], what + ": status")
        st["fail"] = -1
        st["failed"] += fail >= 0
        mine = bus[n_bus:]
        if mode == "none":
            eq(len(mine), 1, what + ": items on the sequencer")
        else:
            n = len(flat) if fail < 0 else fail + 1
            eq([(b[0], b[1]) for b in mine], [("write" if wr else "read", a) for a in flat[:n]], what + ": bus accesses")
        if fail < 0:
            if wr:
                eq([peek(x) for x in words], vals, what + ": words in the DUT")
            elif o["k"] != "mirror":
                eq(val, before, what + ": value returned")
            if not mem and case["auto"]:
                eq(el.get_mirrored_value(), vals[0] if wr else before[0], what + ": mirror")
        # whose children are the items?
        if mode == "pseq":
            eq(len(clones) - n_cl, 0 if not mine else 1, what + ": clones of the parent sequence")
            own = clones[-1]
            check(own is not self.ad.parent_sequence, "%s: parent_sequence itself was used", what)
            check(type(own) is PSeq, "%s: clone is %r", what, type(own))
            check(own.get_parent_sequence() is par, "%s: parent of the clone is %r", what, own.get_parent_sequence())
        else:
            own = par
        for b in mine:
            if own is not None:
                check(b[3] is own, "%s: parent sequence of the bus item is %r", what, b[3])
            else:
                check(b[3] is not None and b[3] not in parents, "%s: parent sequence of the bus item is %r", what, b[3])
            check(b[4] is self.sqr, "%s: sequencer of the bus item", what)
        # hooks
        got = events[n_ev:]
        want = []
        if own is not None:
            rw = self.items[n_items][0] if mode != "none" else mine[0][5]
            k = 0
            for x in words if mode != "none" else [[0]]:
                for i in range(len(x)):
                    if k >= len(mine):
                        break
                    it = mine[k][5]
                    want.append((own, "pre_do", True))
                    if i == 0 and mode != "none":
                        want.append((own, "mid_do", rw))
                    want += [(own, "mid_do", it), (own, "post_do", it)]
                    if i == len(x) - 1 and mode != "none":
                        want.append((own, "post_do", rw))
                    k += 1
            if fail >= 0 and mode != "none" and fail % len(words[0]) == len(words[0]) - 1 and len(got) == len(want) - 1:
                want.pop()       # whether a failing last beat ends with post_do is not prescribed
        show = [(e[0].get_name(), e[1], e[2] if isinstance(e[2], bool) else e[2].get_name()) for e in got]
        check(len(got) == len(want) and all(a[0] is b[0] and a[1] == b[1] and a[2] is b[2] for a, b in zip(got, want)), "%s: hooks called %r, expected %r", what,
              show, [(e[0].get_name(), e[1], e[2] if isinstance(e[2], bool) else e[2].get_name()) for e in want])
        # the register item
        its = self.items[n_items:] if mode != "none" else [(mine[0][5], mine[0][6])]
        if mode != "none":
            eq(len(its), len(mine), what + ": reg2bus calls")
        for it, s in its:
            check(it is its[0][0], "%s: get_item() changed during the access", what)
            check(isinstance(it, UVMRegItem), "%s: item %r", what, it)
            exp = {"kind": KIND[o["k"]], "path": UVM_FRONTDOOR, "prior": o["prior"], "fname": "f%d" % o["line"], "lineno": o["line"],
                   "offset": min(o["off"], 8 - len(words)) if mem else s["offset"], "element_kind": UVM_MEM if mem else UVM_REG}
            if wr:
                exp["value"] = vals
            eq({k: s[k] for k in exp}, exp, what + ": register item")
            check(s["element"] is el, "%s: element of the item is %r", what, s["element"])
            check(s["extension"] is ext, "%s: extension of the item is %r", what, s["extension"])
            check(s["map"] is self.map, "%s: map of the item is %r", what, s["map"])
        if self.ad is not None:
            check(self.ad.get_item() is None, "%s: get_item() after the access", what)
        if mode != "none":
            st["beats"] += len(flat) > 1

    async def thread(self, t, ops):
        single = len(case["threads"]) == 1
        parents = [None, Seq("par%d" % t), Seq("run%d" % t)]

        async def body(seq):
            for k, o in enumerate(ops):
                if case["gap"][(t + k) % 4]:
                    await Timer(case["gap"][(t + k) % 4] * 1000, "ps")
                await op(self, o, "thread %d op %d %r" % (t, k, o), parents, single)
        parents[2].todo = body
        await parents[2].start(self.sqr)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        ts = [cocotb.start_soon(thread(self, t, ops)) for t, ops in enumerate(case["threads"])]
        for t in ts:
            await t
        if len(ts) > 1:
            total = [a for t in case["threads"] for o in t for a in sum(beats(o), [])]
            if mode != "none":
                eq(sorted(b[1] for b in bus), sorted(total), "addresses on the bus")
            # accesses to one register do not interleave
            for r, a0 in enumerate(addr_of):
                n = case["regs"][r] // w
                seen = [b[:2] for b in bus if a0 <= b[1] < a0 + case["regs"][r]] if mode != "none" else []
                for j in range(0, len(seen), n):
                    eq(seen[j:j + n], [(seen[j][0], a0 + i * w) for i in range(n)], "beats of register %d from its %dth on (all: %r)" % (r, j, seen))
        await ranked(self)
        phase.drop_objection(self)

    async def ranked(self):
        """accesses waiting together are granted by priority (strict FIFO arbitration)"""
        ranks = case["rank"][:len(self.regs)]
        if len(set(ranks)) != len(ranks) or len(ranks) < 2:
            return
        st["ranked"] = 1
        self.sqr.set_arbitration(UVM_SEQ_ARB_STRICT_FIFO)
        case["delays"][:] = [1]
        status = [[] for _ in range(len(ranks) + 1)]
        first = cocotb.start_soon(self.mem.write(status[-1], 0, 0, prior=5000))
        await Timer(500, "ps")
        n, n_items = len(bus), len(self.items)
        ts = [cocotb.start_soon((r.read if i % 2 else r.write)(status[i], [] if i % 2 else i + 1, path=UVM_FRONTDOOR, prior=case["rank"][i], _map=self.map,
                                                                  parent=Seq("rank%d" % i) if case["rpar"][i] else None)) for i, r in enumerate(self.regs)]
        for t in ts + [first]:
            await t
        eq(status, [[UVM_IS_OK]] * len(status), "status of the accesses with priorities %r" % case["rank"])
        seen = []
        for b in bus[n:]:
            r = [i for i, a in enumerate(addr_of) if (b[6]["element"] is self.regs[i] if mode == "none" else a <= b[1] < a + case["regs"][i])]
            if r and r[0] not in seen:
                seen.append(r[0])
        eq(seen, sorted(range(len(ranks)), key=lambda i: -ranks[i]), "order in which accesses with priorities %r were granted" % case["rank"])

    def snap(it):
        return {"kind": it.kind, "path": it.path, "prior": it.prior, "fname": it.fname, "lineno": it.lineno, "offset": it.offset, "map": it.map,
                "element": it.element, "element_kind": it.element_kind, "extension": it.extension, "value": list(it.value)}

    def item_env(top, dut, rsp, delays):
        """Like bus_env() for a map without adapter: get_next_item() below serves the register items"""
        from uvm import UVMSequencer, UVMDriver

        class Drv(UVMDriver):
            async def run_phase(self, phase):
                k = 0
                while True:
                    t = []
                    await self.seq_item_port.get_next_item(t)
                    if delays[k % len(delays)]:
                        await Timer(delays[k % len(delays)] * 1000, "ps")
                    k += 1
                    self.seq_item_port.item_done()
        sqr, drv = UVMSequencer("sqr", top), Drv("drv", top)
        return sqr, None, [], lambda: drv.seq_item_port.connect(sqr.seq_item_export)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.items = []
        self.sqr, self.ad, self.log, self.conn = (item_env if mode == "none" else bus_env)(self, dut, case["rsp"], case["delays"])
        r2b = self.ad and self.ad.reg2bus

        def reg2bus(rw):
            it = self.ad.get_item()
            check(it is not None, "get_item() is None during reg2bus")
            self.items.append((it, snap(it)))
            return r2b(rw)
        if mode != "none":
            self.ad.reg2bus = reg2bus
        if mode == "pseq":
            self.ad.parent_sequence = PSeq("pseq")
            real = self.ad.parent_sequence.clone

            def clone():
                c = real()
                clones.append(c)
                return c
            self.ad.parent_sequence.clone = clone
        self.blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
        self.map = self.blk.create_map("map", case["base"] if not case["sub"] else 0, w, UVM_LITTLE_ENDIAN)
        self.blk.default_map = self.map
        self.root = self.map
        if case["sub"]:
            self.rootblk = UVMRegBlock("root", UVM_NO_COVERAGE)
            self.root = self.rootblk.default_map = self.rootblk.create_map("rmap", case["base"], w, UVM_LITTLE_ENDIAN)
            self.blk.configure(self.rootblk)
            self.root.add_submap(self.map, 0x100)
        self.regs, at = [], 0
        for i, nb in enumerate(case["regs"]):
            x = make_reg("r%d" % i, nb * 8, [{"name": "f", "lsb": 0, "n": nb * 8, "pol": "RW", "vol": 0, "reset": 0}])
            x.configure(self.blk)
            self.map.add_reg(x, at)
            at += nb
            self.regs.append(x)
        self.mem = UVMMem("mem", 8, word * 8)
        self.mem.configure(self.blk)
        self.map.add_mem(self.mem, at)
        (self.rootblk if case["sub"] else self.blk).lock_model()
        (self.rootblk if case["sub"] else self.blk).reset()

    def connect(self, phase):
        self.conn()
        port = self.get_child("drv").seq_item_port
        get = port.get_next_item

        async def get_next_item(t):
            await get(t)
            b = t[-1]
            if mode == "none":
                s = snap(b)
                bus.append((None, None, None, b.get_parent_sequence(), b.get_sequencer(), b, s))
                words = self.last_words(b)
                ok = st["n"] != st["fail"]
                st["n"] += 1
                for j, x in enumerate(words):
                    if not ok:
                        break
                    if b.kind in (UVM_WRITE, UVM_BURST_WRITE):
                        for i, a in enumerate(x):
                            store[a] = b.value[j] >> 8 * w * i & limit(w)
                    else:
                        b.value[j] = peek(x)
                b.status = UVM_IS_OK if ok else UVM_NOT_OK
            else:
                bus.append((b.kind, b.addr, b.data, b.get_parent_sequence(), b.get_sequencer(), b))
        port.get_next_item = get_next_item
        self.root.set_sequencer(self.sqr, self.ad)
        self.root.set_auto_predict(case["auto"])
        self.root.set_check_on_read(False)

    def last_words(self, b):
        if b.element is self.mem:
            return [[base + mem_at + (b.offset + j) * word + i * w for i in range(word // w)] for j in range(len(b.value))]
        r = [i for i, x in enumerate(self.regs) if x is b.element]
        eq(len(r), 1, "element %r of the item is a register of the model" % b.element)
        return [[addr_of[r[0]] + i * w for i in range(case["regs"][r[0]] // w)]]
    d = {"build_phase": build, "connect_phase": connect, "run_phase": run_phase, "last_words": last_words}
    top = comp_class("R11Top", d)
    uvm_run(top)
    check(not rep.errors() and not rep.warnings(), "unexpected message %r", (rep.errors() + rep.warnings())[:2])
    return {"nontrivial": (mode != "plain" or any(o["par"] for t in case["threads"] for o in t)) and (st["beats"] > 0 or len(case["threads"]) > 1),
            "ops": st["ops"], "failed": st["failed"], "no_adapter": mode == "none", "parent_sequence": mode == "pseq", "threads": len(case["threads"])}
