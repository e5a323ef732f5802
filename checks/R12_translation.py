from util import *
from regs import *

ID = "R12"
META = {
    "title": "Translation sequences carry out abstract register accesses on the bus",
    "statement": "For every register model layered on a register sequencer (its map has a sequencer and no adapter), with a UVMRegSequence whose reg_seqr and adapter are set running on a bus sequencer, and every set of accesses from any number of threads: each access reaches do_reg_item exactly once, in the order the register sequencer granted it and one at a time, as an item whose kind, element, value, offset, prior, extension and call site are the caller's; the bus carries exactly its beats, between the start and the end of do_reg_item, on the sequencer of the translation sequence; the access completes after that with the bus's status and data, and the mirror and DUT as through a plain adapter. With parent_select LOCAL the translation sequence is the parent of the bus items and their hooks run on it, with UPSTREAM the parent of the access is; either way the item has its own parent afterwards. An overriding do_reg_item decides value and status. A translation sequence without reg_seqr warns and serves only direct do_reg_item calls.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all access mixes, register and bus widths, numbers of threads and register sequencers, parent selections, overrides, bus delays and errors",
    "why": "The unit tests never run a layered register sequencer; only whole environments with several threads show lost, duplicated or misattributed accesses.",
    "files": ["src/uvm/reg/uvm_reg_sequence.py", "src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_mem.py", "src/uvm/seq/uvm_sequencer.py"],
    "mech": [["UVMRegSequence.body / do_reg_item", "src/uvm/reg/uvm_reg_sequence.py"], ["UVMRegMap.do_write / do_read without adapter", "src/uvm/reg/uvm_reg_map.py"], ["UVMSequencer.peek / get", "src/uvm/seq/uvm_sequencer.py"]],
    "note": "Whole tests with one or two layered register sequencers over simulated buses.",
}
RULE = "two threads, two register sequencers, a parent selection of UPSTREAM, an override or an error took part, with an access of several beats"
N = (70, 7000)
ASSUMPTIONS = ["registers and memory words are multiples of the bus width", "FIFO arbitration on the register sequencers", "no callbacks and no user front-doors"]


def strategy():
    def fn(g):
        w = g.pick([1, 2, 4, 4])
        layers = []
        for _ in range(g.pick([1, 1, 2])):
            layers.append({"up": g.b(1, 2), "style": g.pick(["body", "body", "count", "modify", "replace", "direct", "bare"]), "delays": [g.pick([0, 0, 1, 3]) for _ in range(3)],
                           "rsp": g.b(1, 3), "start": g.pick([0, 0, 2])})
        regs = [min(w * g.pick([1, 1, 2, 3]), 8 // w * w) for _ in range(g.i(1, 3))]
        word = w if g.b(2, 3) else min(2 * w, 8)
        threads = []
        nt = g.pick([1, 1, 2, 3])
        for _ in range(nt):
            ops = []
            for _ in range(g.i(1, 5 if nt == 1 else 3)):
                kind = g.pick(["write", "write", "read", "read", "mirror", "mwrite", "mread", "mbwrite", "mbread"])
                if word > w:
                    kind = kind.replace("mb", "m")
                ops.append({"k": kind, "r": g.i(0, len(regs) - 1), "v": g.bits(64), "off": g.i(0, 7), "len": g.i(1, 3), "par": g.i(0, 1), "gap": g.pick([0, 0, 1, 2]),
                            "prior": g.pick([-1, -1, 7, 200]), "ext": g.b(1, 3), "line": g.i(0, 99), "layer": g.i(0, len(layers) - 1),
                            "fail": g.pick([-1, -1, 0, 1, 2]) if nt == 1 else -1})
            threads.append(ops)
        return {"w": w, "regs": regs, "word": word, "layers": layers, "threads": threads, "auto": g.b(3, 4), "sub": g.b(1, 3), "onebus": g.b(1, 3)}
    return gen(fn, 420)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent, UVMObject, UVMSequence, UVMSequencer
    from uvm.macros import uvm_object_utils
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_item import UVMRegItem
    from uvm.reg.uvm_reg_sequence import UVMRegSequence, UPSTREAM
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_FRONTDOOR, UVM_IS_OK, UVM_NOT_OK, UVM_NO_CHECK, UVM_READ, UVM_WRITE,
                                       UVM_BURST_READ, UVM_BURST_WRITE)
    rep = Reports()
    w, word = case["w"], case["word"]
    nl = len(case["layers"])
    KIND = {"write": UVM_WRITE, "read": UVM_READ, "mirror": UVM_READ, "mwrite": UVM_WRITE, "mread": UVM_READ, "mbwrite": UVM_BURST_WRITE, "mbread": UVM_BURST_READ}
    store, st = {}, {"n": 0, "fail": -1, "ops": 0, "beats": 0, "failed": 0}
    log = []             # what happened, in order: (layer, "begin"/"end"/"bus"/"hook"/"issue"/"done", ...)
    single = len(case["threads"]) == 1

    def hooks(cls):
        def pre_do(self, is_item):
            log.append(("hook", self, "pre_do", bool(is_item)))

        def mid_do(self, item):
            log.append(("hook", self, "mid_do", item))

        def post_do(self, item):
            log.append(("hook", self, "post_do", item))
        cls.pre_do, cls.mid_do, cls.post_do = pre_do, mid_do, post_do

    class Par(UVMSequence):
        pass
    hooks(Par)
    uvm_object_utils(Par)

    class Trans(UVMRegSequence):
        async def body(self):
            L = self.spec
            if L["start"]:
                await Timer(L["start"] * 1000, "ps")
            if L["style"] == "bare":
                cocotb.start_soon(self.serve())
            if L["style"] != "direct":
                await super().body()
                check(False, "body() of a translation sequence returned")
            await self.serve()

        async def serve(self):
            while True:
                t = []
                await self.src.get_next_item(t)
                await self.do_reg_item(t[-1])
                self.src.item_done()

        async def do_reg_item(self, rw):
            L = self.spec
            par = rw.get_parent_sequence()
            log.append(("begin", self, rw, snap(rw), rw.parent, par))
            if L["style"] == "replace":
                await Timer(1000, "ps")
                rw.status = UVM_IS_OK
                for j, x in enumerate(self.top.words_of(rw)):
                    if rw.kind in (UVM_WRITE, UVM_BURST_WRITE):
                        put(x, rw.value[j])
                    else:
                        rw.value[j] = peek(x)
                st["n"] += 1
                if st["n"] - 1 == st["fail"]:
                    rw.status = UVM_NOT_OK
            else:
                wr = rw.kind in (UVM_WRITE, UVM_BURST_WRITE)
                if L["style"] == "modify" and wr:
                    rw.value = [~v & limit(self.top.size_of(rw)) for v in rw.value]
                await super().do_reg_item(rw)
                if L["style"] == "modify":
                    rw.value = [~v & limit(self.top.size_of(rw)) for v in rw.value]
            log.append(("end", self, rw, rw.parent, rw.get_parent_sequence()))
    hooks(Trans)
    uvm_object_utils(Trans)

    def dut(layer):
        def fn(kind, addr, data, be):
            ok = st["n"] != st["fail"]
            st["n"] += 1
            res = 0
            if ok and kind == "write":
                store[addr] = data
            elif kind == "read":
                res = store.get(addr, 0)
            log.append(("bus", layer, kind, addr))
            return res, ok
        return fn

    def limit(n):
        return (1 << 8 * n) - 1
    base, addr_of, at = (0x100 if case["sub"] else 0), [], 0
    for nb in case["regs"]:
        addr_of.append(base + at)
        at += nb
    mem_at = at

    def beats(o):
        if o["k"] in ("write", "read", "mirror"):
            return [[addr_of[o["r"]] + i * w for i in range(case["regs"][o["r"]] // w)]]
        n = o["len"] if "mb" in o["k"] else 1
        off = min(o["off"], 8 - n)
        return [[base + mem_at + (off + j) * word + i * w for i in range(word // w)] for j in range(n)]

    def peek(addrs):
        return sum(store.get(a, 0) << 8 * w * i for i, a in enumerate(addrs))

    def put(addrs, v):
        for i, a in enumerate(addrs):
            store[a] = v >> 8 * w * i & limit(w)

    def snap(it):
        return {"kind": it.kind, "path": it.path, "prior": it.prior, "fname": it.fname, "lineno": it.lineno, "offset": it.offset, "map": it.map,
                "element": it.element, "extension": it.extension, "value": list(it.value)}

    async def op(self, o, what, par):
        mem = o["k"][0] == "m" and o["k"] != "mirror"
        li = o["layer"]
        L = case["layers"][li]
        el = self.mem if mem else self.regs[o["r"]]
        size = word if mem else case["regs"][o["r"]]
        own = par if o["par"] else None
        ext = UVMObject("ext") if o["ext"] else None
        kw = {"path": UVM_FRONTDOOR, "parent": own, "prior": o["prior"], "extension": ext, "fname": "f%d" % o["line"], "lineno": o["line"], "_map": self.maps[li]}
        words = beats(o)
        flat = [a for x in words for a in x]
        status, val = [], []
        vals = [(o["v"] >> 5 * j | j) & limit(size) for j in range(len(words))]
        wr = KIND[o["k"]] in (UVM_WRITE, UVM_BURST_WRITE)
        n0 = len(log)
        st["n"] = 0
        fail = st["fail"] = (o["fail"] if o["fail"] < (1 if L["style"] == "replace" else len(flat)) else -1) if single else -1
        before = [peek(x) for x in words]
        if o["k"] == "write":
            await el.write(status, vals[0], **kw)
        elif o["k"] == "read":
            await el.read(status, val, **kw)
        elif o["k"] == "mirror":
            await el.mirror(status, UVM_NO_CHECK, **kw)
        else:
            off = min(o["off"], 8 - len(words))
            if o["k"] == "mwrite":
                await el.write(status, off, vals[0], **kw)
            elif o["k"] == "mread":
                await el.read(status, off, val, **kw)
            elif o["k"] == "mbwrite":
                await el.burst_write(status, off, list(vals), **kw)
            else:
                val = [0] * len(words)
                await el.burst_read(status, off, val, **kw)
        st["ops"] += 1
        st["failed"] += fail >= 0
        st["beats"] += len(flat) > 1
        eq(status, [UVM_NOT_OK if fail >= 0 else UVM_IS_OK], what + ": status")
        mine = [x for x in log[n0:] if single or x[0] in ("begin", "end") and x[2].lineno == o["line"] and x[2].extension is ext and x[2].element is el]
        if single:
            check(mine and [x[0] for x in mine].count("begin") == 1, "%s: translated %d times", what, [x[0] for x in mine].count("begin"))
        beg = [x for x in mine if x[0] == "begin"]
        end = [x for x in mine if x[0] == "end"]
        check(beg and len(beg) == len(end), "%s: translation not complete when the access ends", what)
        tr = self.trans[li]
        rw = beg[-1][2]
        for b in beg[-1:]:
            check(b[1] is tr, "%s: translated by another sequence", what)
            check(isinstance(rw, UVMRegItem), "%s: item %r", what, rw)
            exp = {"kind": KIND[o["k"]], "path": UVM_FRONTDOOR, "prior": o["prior"], "fname": "f%d" % o["line"], "lineno": o["line"],
                   "offset": min(o["off"], 8 - len(words)) if mem else b[3]["offset"]}
            if wr:
                exp["value"] = vals
            eq({k: b[3][k] for k in exp}, exp, what + ": register item")
            check(b[3]["element"] is el and b[3]["extension"] is ext and b[3]["map"] is self.maps[li], "%s: element, extension and map of the item: %r", what,
                  (b[3]["element"], b[3]["extension"], b[3]["map"]))
            if own is not None:
                check(b[4] is own and b[5] is own, "%s: parent of the item is %r, %r", what, b[4], b[5])
        check(end[-1][3] is beg[-1][4] and end[-1][4] is beg[-1][5], "%s: parent of the item after the translation is %r", what, end[-1][3])
        if not single:
            return
        st["fail"] = -1
        n = len(flat) if fail < 0 else fail + 1
        i0, i1 = log.index(beg[0], n0), log.index(end[0], n0)
        bus = [(x[1], x[2], x[3]) for x in log[i0:i1] if x[0] == "bus"]
        eq([(x[1], x[2], x[3]) for x in mine if x[0] == "bus"], bus, what + ": bus accesses, and those during do_reg_item")
        eq(bus, [] if L["style"] == "replace" else [(0 if case["onebus"] else li, "write" if wr else "read", a) for a in flat[:n]], what + ": bus accesses")
        inv = limit(size) if L["style"] == "modify" else 0
        if fail < 0:
            if wr:
                eq([peek(x) for x in words], [v ^ inv for v in vals], what + ": words in the DUT")
            elif o["k"] != "mirror":
                eq(val, [v ^ inv for v in before], what + ": value returned")
            if not mem and case["auto"]:
                eq(el.get_mirrored_value(), vals[0] if wr else before[0] ^ inv, what + ": mirror")
        # hooks of the parent of the access and of the translation sequence
        up = L["up"]
        for who, name in ((own, "the parent"), (tr, "the translation sequence")):
            if who is None:
                continue
            want = [("pre_do", True), ("mid_do", rw)] if who is own else []
            if L["style"] != "replace" and (who is own) == bool(up):
                k = 0
                for x in words:
                    for i in range(len(x)):
                        if k >= n:
                            break
                        want.append(("pre_do", True))
                        if i == 0:
                            want.append(("mid_do", rw))
                        want += [("mid_do", "bus"), ("post_do", "bus")]
                        if i == len(x) - 1:
                            want.append(("post_do", rw))
                        k += 1
            soft = fail >= 0 and fail % len(words[0]) == len(words[0]) - 1 and len(want) > 0 and want[-1] == ("post_do", rw)
            tail = [("post_do", rw)] if who is own else []
            got = [(x[2], x[3] if isinstance(x[3], bool) or x[3] is rw else "bus") for x in log[n0:] if x[0] == "hook" and x[1] is who]
            same = got == want + tail or soft and got == want[:-1] + tail

            def text(xs):
                return ["%s(%s)" % (a, b if isinstance(b, (bool, str)) else "item") for a, b in xs]
            check(same, "%s: hooks of %s: %r, expected %r", what, name, text(got), text(want + tail))

    async def thread(self, t, ops):
        par = Par("par%d" % t)
        for k, o in enumerate(ops):
            if o["gap"]:
                await Timer(o["gap"] * 1000, "ps")
            await op(self, o, "thread %d op %d %r" % (t, k, o), par)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        for li, L in enumerate(case["layers"]):
            cocotb.start_soon(self.trans[li].start(self.sqr[0 if case["onebus"] else li]))
        ts = [cocotb.start_soon(thread(self, t, ops)) for t, ops in enumerate(case["threads"])]
        for t in ts:
            await t
        # one at a time per translation sequence, every access once
        for li in range(nl):
            seen = [x for x in log if x[0] in ("begin", "end") and x[1] is self.trans[li]]
            eq([x[0] for x in seen], ["begin", "end"] * (len(seen) // 2), "translations of sequence %d" % li)
            check(all(seen[i][2] is seen[i + 1][2] for i in range(0, len(seen), 2)), "translations of sequence %d", li)
            eq(len(seen) // 2, sum(o["layer"] == li for t in case["threads"] for o in t), "accesses translated by sequence %d" % li)
            items = [id(x[2]) for x in seen[::2]]
            eq(len(set(items)), len(items), "different items translated by sequence %d" % li)
            eq([id(x[0]) for x in self.granted[li]], items, "order of the grants of sequencer %d" % li)
        if not case["onebus"]:
            for li, L in enumerate(case["layers"]):
                eq(sorted(x[3] for x in log if x[0] == "bus" and x[1] == li),
                   sorted(a for t in case["threads"] for o in t if o["layer"] == li and L["style"] != "replace" for a in sum(beats(o), []))
                   if single is False else sorted(x[3] for x in log if x[0] == "bus" and x[1] == li), "addresses on bus %d" % li)
        phase.drop_objection(self)

    class RegSqr(UVMSequencer):
        async def wait_for_item_done(self, sequence_ptr, transaction_id):
            await super().wait_for_item_done(sequence_ptr, transaction_id)

        def send_request(self, sequence_ptr, t, rerandomize=0):
            self.out.append((t,))
            return super().send_request(sequence_ptr, t, rerandomize)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr, self.ads, self.conns = [], [], []
        for li, L in enumerate(case["layers"]):
            if li == 0 or not case["onebus"]:
                s, a, _, c = bus_env(self, dut(li), L["rsp"], L["delays"], prefix="b%d" % li)
                self.sqr.append(s)
                self.ads.append(a)
                self.conns.append(c)
        self.blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
        self.maps, self.roots, self.regs = [], [], []
        if case["sub"]:
            self.rootblk = UVMRegBlock("root", UVM_NO_COVERAGE)
            self.blk.configure(self.rootblk)
        for li in range(nl):
            m = self.blk.create_map("map%d" % li, 0, w, UVM_LITTLE_ENDIAN)
            r = m
            if case["sub"]:
                r = self.rootblk.create_map("rmap%d" % li, 0, w, UVM_LITTLE_ENDIAN)
                r.add_submap(m, 0x100)
                if li == 0:
                    self.rootblk.default_map = r
            if li == 0:
                self.blk.default_map = m
            self.maps.append(m)
            self.roots.append(r)
        at = 0
        for i, nb in enumerate(case["regs"]):
            x = make_reg("r%d" % i, nb * 8, [{"name": "f", "lsb": 0, "n": nb * 8, "pol": "RW", "vol": 0, "reset": 0}])
            x.configure(self.blk)
            for m in self.maps:
                m.add_reg(x, at)
            at += nb
            self.regs.append(x)
        self.mem = UVMMem("mem", 8, word * 8)
        self.mem.configure(self.blk)
        for m in self.maps:
            m.add_mem(self.mem, at)
        top = self.rootblk if case["sub"] else self.blk
        top.lock_model()
        top.reset()
        self.rsqr, self.trans, self.granted = [], [], []
        for li, L in enumerate(case["layers"]):
            q = RegSqr("rsqr%d" % li, self)
            q.out = []
            self.granted.append(q.out)
            self.rsqr.append(q)
            t = Trans("trans%d" % li)
            t.spec, t.top, t.src = L, self, q
            t.adapter = self.ads[0 if case["onebus"] else li]
            if L["style"] not in ("direct", "bare"):
                t.reg_seqr = q
            if L["up"]:
                t.parent_select = UPSTREAM
            self.trans.append(t)

    def connect(self, phase):
        for c in self.conns:
            c()
        for r, q in zip(self.roots, self.rsqr):
            r.set_sequencer(q)
            r.set_auto_predict(case["auto"])
            r.set_check_on_read(False)

    def size_of(self, rw):
        return word if rw.element is self.mem else [nb for x, nb in zip(self.regs, case["regs"]) if x is rw.element][0]

    def words_of(self, rw):
        if rw.element is self.mem:
            return [[base + mem_at + (rw.offset + j) * word + i * w for i in range(word // w)] for j in range(len(rw.value))]
        r = [i for i, x in enumerate(self.regs) if x is rw.element][0]
        return [[addr_of[r] + i * w for i in range(case["regs"][r] // w)]]
    top = comp_class("R12Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase, "size_of": size_of, "words_of": words_of})
    uvm_run(top)
    bare = sum(L["style"] == "bare" for L in case["layers"])
    eq([x[1] for x in rep.warnings()], ["REG_XLATE_NO_SEQR"] * bare, "warnings")
    check(not rep.errors(), "unexpected message %r", rep.errors()[:2])
    special = len(case["threads"]) > 1 or nl > 1 or st["failed"] or any(L["up"] or L["style"] not in ("body",) for L in case["layers"])
    return {"nontrivial": bool(special and st["beats"]), "ops": st["ops"], "failed": st["failed"], "threads": len(case["threads"]), "layers": nl,
            "upstream": any(L["up"] for L in case["layers"])}
