from util import *
from regs import *

ID = "R07"
META = {
    "title": "A predictor keeps the mirror equal to what the observed bus did",
    "statement": "For every sequence of bus operations observed by a UVMRegPredictor on a root map, in whatever order the beats of one or several registers arrive, an operation on a register is recognised exactly when all its beats were seen: pre_predict is called, the register and its block are sampled and the register item (element, kind, possibly altered value) is published on reg_ap exactly once each, and the mirror then equals what the access policies, map rights and byte enables say; other registers do not change. A read value differing from the mirror in a readable, comparable field is reported exactly when the map checks on read. Beats outside every register are ignored, a repeated beat is reported as a collision, registers still incomplete at the end are named in one error, a read-only/write-only pair is told apart by the direction, and an indirect data register predicts the element its index selects. It makes no difference whether the operations come from the register model or from elsewhere.",
    "over": ["histories", "inputs", "schedules"],
    "quant": "all register layouts, map hierarchies, bus operation sequences with interleaved beats, byte enables and data",
    "why": "Examples only observe single-beat registers written by the register model itself.",
    "files": ["src/uvm/reg/uvm_reg_predictor.py", "src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_reg_field.py", "src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg_indirect.py"],
    "mech": [["UVMRegPredictor.write / check_phase", "src/uvm/reg/uvm_reg_predictor.py"], ["UVMReg.do_predict / do_check / XsampleX", "src/uvm/reg/uvm_reg.py"],
             ["UVMRegField.do_predict", "src/uvm/reg/uvm_reg_field.py"], ["UVMRegMap.get_reg_by_offset", "src/uvm/reg/uvm_reg_map.py"]],
    "note": "A monitor publishes generated bus operations, or those of register accesses with automatic prediction off, to a predictor; the reference model follows beat by beat.",
}
RULE = "a register of several beats was completed while another was incomplete, or beats came out of order, or byte enables were partial"
N = (150, 12000)
ASSUMPTIONS = ["little or big endian maps (the beats of a FIFO map cannot be told apart)", "submaps are as wide as their parent", "byte enables enable a field entirely or not at all",
               "elements of an indirect array have no toggling (W1T, W0T) fields", "bits outside the fields read as 0"]


def strategy():
    def fn(g):
        w = g.pick([4, 1, 2, 8])
        live = g.b(1, 4)
        regs = []
        for _ in range(g.pick([2, 1, 3, 4])):
            nb = g.pick([4, 8, 1, 2, 3, 6])
            bits = nb * 8 - g.pick([0, 0, 1, 7])
            fs = gen_fields(g, bits, POLICIES, g.b())
            for f in fs:
                f["vol"] = int(g.b(1, 8))
            regs.append({"bits": bits, "nb": nb, "fields": fs, "sub": g.i(0, 2), "gap": g.pick([0, 0, 1, 3]), "rights": g.pick(["RW", "RW", "RW", "RO", "WO"]), "pair": False})
            if not live and g.b(1, 5):      # a write-only register at the same address
                for f in fs:
                    f["pol"] = g.pick(["RO", "RC", "RS"])
                regs[-1]["rights"] = "RW"
                regs.append({"bits": bits, "nb": nb, "fields": [dict(f, pol=g.pick(list(WRITE_ONLY))) for f in gen_fields(g, bits)], "sub": regs[-1]["sub"], "gap": 0,
                             "rights": "RW", "pair": True})
        subs = [{"in": g.i(0, k), "gap": g.pick([0, 1, 4]), "endian": g.i(0, 1)} for k in range(2)]
        ops = []
        for _ in range(g.i(2, 12)):
            k = g.i(0, 15)
            if k < 11:
                ops.append(["acc", [[g.i(0, 15), g.pick(["write", "read"]), g.pick([1, 1, 0, 2]), g.bits(64), g.bits(8) if g.b(1, 3) else -1, g.perm(list(range(8))) if g.b() else None]
                                    for _ in range(g.pick([1, 2, 2, 3]))], g.bits(32)])
            else:
                ops.append([["set", "reset", "stray", "collide", "predict"][k - 11], g.i(0, 15), g.bits(64), g.i(0, 7)])
        return {"w": w, "ba": g.b(3, 4), "endian": g.i(0, 1), "base": g.pick([0, 0x100, 3]), "regs": regs, "subs": subs, "ops": ops, "live": live, "rsp": g.b(1, 4),
                "delays": [g.pick([0, 0, 1]) for _ in range(3)], "cor": g.b(2, 3), "bump": g.b(1, 4), "ind": g.i(1, 4) if g.b(1, 4) else 0, "left": g.b(1, 4), "seed": g.bits(16)}
    return gen(fn, 400)


def field_be(fields, be, nb):
    """Enable a field entirely or not at all."""
    if be == -1:
        return -1
    be &= (1 << nb) - 1
    while True:
        old = be
        for f in fields:
            a, b = f["lsb"] // 8, (f["lsb"] + f["n"] - 1) // 8
            m = ((1 << b - a + 1) - 1) << a
            be = be | m if be >> a & 1 else be & ~m
        if be == old:
            return be


def run(case):
    import random
    import cocotb
    from uvm import UVMComponent, UVMAnalysisPort
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_indirect import UVMRegIndirectData
    from uvm.reg.uvm_reg_predictor import UVMRegPredictor
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_READ, UVM_WRITE, UVM_IS_OK)
    rep = Reports()
    rng = random.Random(case["seed"])
    w, ba, live = case["w"], case["ba"], case["live"]
    wm = (1 << 8 * w) - 1
    models, recs, calls = [], [], []
    st = {"done": 0, "nt": 0}
    box = {}
    pend = {}       # record number -> {"kind", "val", "be", "seen"}

    class Reg(UVMReg):
        def sample(self, data, byte_en, is_read, _map):
            calls.append(["sample", self.get_name(), data, byte_en & (1 << self.get_n_bytes()) - 1, bool(is_read), _map.get_name()])

    class Data(UVMRegIndirectData):
        pass

    class Blk(UVMRegBlock):
        def sample(self, offset, is_read, _map):
            calls.append(["blk", self.get_name(), offset, bool(is_read), _map.get_name()])

    class Pred(UVMRegPredictor):
        def pre_predict(self, rw):
            calls.append(["pre", rw.element.get_name(), rw.value[0]])
            if case["bump"]:
                rw.value[0] ^= 0x5A

    def make_model():
        blk = Blk("blk0", UVM_NO_COVERAGE)
        blks = [blk]
        E = [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN]
        maps = [blk.create_map("m0", case["base"], w, E[case["endian"]], ba)]
        mms = [MapModel(w, case["endian"], ba, None, case["base"])]
        for k, s in enumerate(case["subs"]):
            b = Blk("blk%d" % (k + 1), UVM_NO_COVERAGE)
            b.configure(blks[s["in"]])
            blks.append(b)
            maps.append(b.create_map("m%d" % (k + 1), 0x55, w, E[s["endian"]], ba))
            mms.append(MapModel(w, s["endian"], ba, mms[s["in"]]))

        def add(name, nb, fields, bits, mi, gap, rights, reg=None, at=None, st_=None):
            mm = mms[mi]
            r = reg or make_reg(name, bits, fields, Reg)
            if at is None:
                at = mm.alloc(max(1, -(-nb // w)) * mm.step, gap)
            recs.append({"reg": r, "name": name, "nb": nb, "fields": fields, "bits": bits, "mm": mm, "mi": mi, "off": at, "rights": rights, "pair": None,
                         "fs": [FieldState(f) for f in fields], "ind": None})
            return r
        prev = None
        for i, s in enumerate(case["regs"]):
            r = add("r%d" % i, s["nb"], s["fields"], s["bits"], s["sub"], s["gap"], s["rights"], at=recs[-1]["off"] if s["pair"] else None)
            if s["pair"]:
                recs[-1]["pair"], recs[-2]["pair"] = len(recs) - 2, len(recs) - 1
            r.configure(blks[s["sub"]])
            maps[s["sub"]].add_reg(r, recs[-1]["off"], s["rights"])
        if case["ind"]:
            idx = add("idx", 1, [{"name": "f", "lsb": 0, "n": 8, "pol": "RW", "vol": 0, "reset": 0}], 8, 0, 0, "RW")
            idx.configure(blk)
            maps[0].add_reg(idx, recs[-1]["off"], "RW")
            box["idx"] = recs[-1]
            elems, tbl = [], []
            for k in range(case["ind"]):
                f = [{"name": "a", "lsb": 0, "n": 8, "pol": ["RW", "W1C", "WRC", "WS"][k % 4], "vol": 0, "reset": k}, {"name": "b", "lsb": 8, "n": 8, "pol": "RW", "vol": 0, "reset": 7}]
                e = make_reg("e%d" % k, 16, f, Reg)
                e.configure(blk)
                elems.append(e)
                tbl.append({"reg": e, "name": "e%d" % k, "fields": f, "fs": [FieldState(x) for x in f], "rights": "RW"})
            d = Data("data", 16)
            d.configure(idx, elems, blk)
            add("data", 2, [], 16, 0, 0, "RW", reg=d)
            maps[0].add_reg(d, recs[-1]["off"], "RW")
            recs[-1]["ind"] = tbl
        for k in (1, 0):
            s, mm = case["subs"][k], mms[k + 1]
            mm.off = mms[s["in"]].alloc(max(mm.cursor, mm.step), s["gap"])
            maps[s["in"]].add_submap(maps[k + 1], mm.off)
        blk.lock_model()
        blk.reset()
        for c in recs:
            for f in c["fs"]:
                f.reset()
            for e in c["ind"] or []:
                for f in e["fs"]:
                    f.reset()
            c["addr"] = c["mm"].phys(c["off"], c["nb"])
        box["map"] = maps[0]
        box["blk"] = blk

    def val(fs):
        return sum(f.mir << f.lsb for f in fs)

    def verify(what):
        for c in recs:
            for e in [c] + (c["ind"] or []):
                for f in e["fs"]:
                    x = e["reg"].fl[f.spec["name"]]
                    eq((x.get_mirrored_value(), x.get()), (f.mir, f.des), "%s: mirrored and desired value of %s.%s (%s, %s)" % (what, e["name"], f.spec["name"], f.pol, e["rights"]))

    def observe(n, kind, beat, data, be, send=True):
        """One beat on the bus; returns what the predictor has to do."""
        c = recs[n]
        a = c["addr"][beat]
        c0, e0 = len(calls), len(rep.errors())
        if send:
            box["send"](kind, a, data, be)
        want, errs, ids = [], 0, []
        p = pend.get(n)
        if p is None:
            p = pend[n] = {"kind": kind, "val": 0, "be": 0, "seen": set(), "last": -1}
        if beat in p["seen"]:
            errs, ids = 1, ["REG_PREDICT_COLLISION"]
            del pend[n]
        else:
            p["val"] |= data << beat * w * 8
            p["be"] |= (be & (1 << w) - 1) << beat * w
            p["seen"].add(beat)
            p["ooo"] = p.get("ooo") or beat != p["last"] + 1
            p["last"] = beat
            if len(p["seen"]) == len(c["addr"]):
                del pend[n]
                e, v = c, p["val"]
                if c["ind"]:
                    e = c["ind"][val(box["idx"]["fs"])]
                if p["kind"] == "read" and case["cor"] and (not c["ind"]):
                    if any(not f.spec["vol"] and not restricted(f.pol, c["rights"]).startswith("WO") and v >> f.lsb & f.mask != f.mir for f in c["fs"]):
                        errs, ids = 1, ["RegModel"]
                full = (1 << e["reg"].get_n_bytes()) - 1
                want.append(["pre", c["name"], v])
                if case["bump"]:
                    v ^= 0x5A
                want.append(["sample", e["name"], v, p["be"] & full, p["kind"] == "read", "m%d" % c["mi"]])
                want.append(["blk", "blk%d" % c["mi"], c["off"], p["kind"] == "read", "m%d" % c["mi"]])
                for f in e["fs"]:
                    if p["be"] >> f.lsb // 8 & 1:
                        f.predict(p["kind"], v >> f.lsb & f.mask, True, c["rights"])
                want.append(["ap", c["name"], p["kind"], v])
                st["done"] += 1
                if p.get("ooo") or pend or p["be"] & full != full:
                    st["nt"] += 1
        if send:
            got = calls[c0:]
            key = lambda q: [x for x in q if x[0] != "pre" and x[0] != "ap"]
            eq([x for x in got if x[0] in ("pre", "ap")], [x for x in want if x[0] in ("pre", "ap")], "beat %d of %s (%s %#x): predictions" % (beat, c["name"], kind, data))
            eq(sorted(map(repr, key(got))), sorted(map(repr, key(want))), "beat %d of %s (%s %#x): samples" % (beat, c["name"], kind, data))
            eq([m[1] for m in rep.errors()[e0:]], ids, "beat %d of %s (%s %#x): reports %r" % (beat, c["name"], kind, data, rep.errors()[e0:]))
        return want, ids

    def choose(k, kind):
        """The k-th register, and the one of a pair this direction belongs to."""
        n = k % len(recs)
        if recs[n]["pair"] is not None:
            n = min(n, recs[n]["pair"]) if kind == "read" else max(n, recs[n]["pair"])
        return n

    def prepare(a):
        n, kind = choose(a[0], a[1]), a[1]
        c = recs[n]
        fs = c["fs"]
        if c["ind"]:
            fs = c["ind"][val(box["idx"]["fs"]) % case["ind"]]["fs"]
        be = -1 if c["ind"] or case["bump"] else field_be(c["fields"], a[4], c["nb"])
        fm = sum(f.mask << f.lsb for f in fs)
        v = a[3] & fm
        if kind == "read" and (a[2] == 1 or be != -1 or c["ind"]):
            v = val(fs)
        elif kind == "read" and a[2] == 2:
            v = val(fs) ^ (v & -v)
        if c["name"] == "idx":
            v %= case["ind"]
        nb = len(c["addr"])
        order = [b for b in a[5] or range(8) if b < nb]
        order += [b for b in range(nb) if b not in order]
        q = []
        for b in order:
            q.append((n, kind, b, v >> b * w * 8 & wm, -1 if be == -1 else be >> b * w & (1 << w) - 1))
        return n, q

    async def fed(self, rng):
        for k, o in enumerate(case["ops"]):
            what = "op %d %s" % (k, o[0])
            if o[0] == "acc":
                qs = {}
                for a in o[1]:
                    n, q = prepare(a)
                    c = recs[n]
                    alone = c["name"] in ("idx", "data")
                    if n in qs or n in pend or c["pair"] in qs or alone and qs or any(recs[x]["name"] in ("idx", "data") for x in qs):
                        continue
                    if case["bump"] and c["name"] == "idx":
                        continue
                    qs[n] = q
                r = random.Random(o[2])
                while qs:
                    n = r.choice(sorted(qs))
                    observe(*qs[n].pop(0))
                    if not qs[n]:
                        del qs[n]
                    verify(what)
            elif o[0] == "stray":
                a = [x for c in recs for x in c["addr"]]
                x = max(a) + 1 + o[3] if o[3] % 2 else max(a) + 1000
                c0, e0 = len(calls), len(rep.errors())
                box["send"](["read", "write"][o[2] % 2], x, o[2] & wm, -1)
                eq((calls[c0:], rep.errors()[e0:]), ([], []), what + ": a beat outside every register")
            elif o[0] == "collide":
                c = recs[choose(o[1], "write")]
                n = recs.index(c)
                if len(c["addr"]) > 1 and n not in pend:
                    b = o[3] % len(c["addr"])
                    observe(n, "write", b, o[2] & wm, -1)
                    observe(n, "write", b, o[2] & wm, -1)
            else:
                c = recs[o[1] % len(recs)]
                if c["ind"] or c["name"] == "idx" or recs.index(c) in pend:
                    continue
                manual(c, o)
            verify(what)
        if case["left"]:
            for n, c in enumerate(recs):
                if len(c["addr"]) > 1 and n not in pend and c["pair"] is None:
                    observe(n, rng.choice(["read", "write"]), rng.randrange(len(c["addr"])), rng.getrandbits(8 * w), -1)

    def manual(c, o):
        if o[0] == "set":
            c["reg"].set(o[2] & (1 << c["bits"]) - 1)
            for f in c["fs"]:
                f.set(o[2] >> f.lsb & f.mask)
        elif o[0] == "reset":
            c["reg"].reset()
            for f in c["fs"]:
                f.reset()
        elif o[0] == "predict":
            check(c["reg"].predict(o[2] & (1 << c["bits"]) - 1), "predict failed")
            for f in c["fs"]:
                f.predict("direct", o[2] >> f.lsb & f.mask)

    async def alive(self, rng):
        """Register accesses by concurrent threads; the driver's operations are observed."""
        accs = [a for o in case["ops"] if o[0] == "acc" for a in o[1]]
        own = {}
        for a in accs:
            n = a[0] % len(recs)
            if recs[n]["name"] in ("idx", "data"):
                continue
            own.setdefault(n, []).append(a)

        async def thread(n, l):
            c = recs[n]
            for a in l:
                s, v = [], []
                if a[1] == "write":
                    await c["reg"].write(s, a[3] & (1 << c["bits"]) - 1, _map=box["map"])
                else:
                    await c["reg"].read(s, v, _map=box["map"])
                eq(s, [UVM_IS_OK], "status")
                for f in c["fs"]:
                    x = c["reg"].fl[f.spec["name"]]
                    eq((x.get_mirrored_value(), x.get()), (f.mir, f.des), "after %s of %s: mirrored and desired value of %s (%s, %s)"
                       % (a[1], c["name"], f.spec["name"], f.pol, c["rights"]))
        ts = [cocotb.start_soon(thread(n, l)) for n, l in sorted(own.items())]
        for t in ts:
            await t
        eq(calls_of("ap"), box["want_ap"], "published register operations")
        eq(len(rep.errors()), box["errs"], "errors %r" % rep.errors()[:3])
        verify("at the end")

    def calls_of(k):
        return [c for c in calls if c[0] == k]

    def dut(kind, addr, data, be):
        n = next(i for i, c in enumerate(recs) if addr in c["addr"])
        c = recs[n]
        b = c["addr"].index(addr)
        if kind == "read":
            data = rng.getrandbits(8 * w) if rng.random() < .3 else val(c["fs"]) >> b * w * 8 & wm
            fm = sum(f.mask << f.lsb for f in c["fs"])
            data &= fm >> b * w * 8 & wm
        want, ids = observe(n, kind, b, data, be, False)
        box["want_ap"] += [x for x in want if x[0] == "ap"]
        box["errs"] += len(ids)
        box["send"](kind, addr, data, be)
        return data, True

    async def run_phase(self, phase):
        phase.raise_objection(self)
        rng2 = random.Random(case["seed"] + 1)
        await (alive if live else fed)(self, rng2)
        box["e"] = len(rep.errors())
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        make_model()
        self.sqr, self.ad, self.log, self.conn = bus_env(self, dut, case["rsp"], case["delays"])
        self.pred = Pred("pred", self)
        self.mon = UVMAnalysisPort("mon", self)
        box.update(want_ap=[], errs=0)

        def send(kind, addr, data, be):
            from uvm.reg.uvm_reg_item import UVMRegBusOp
            op = UVMRegBusOp()
            op.kind, op.addr, op.data, op.byte_en, op.n_bits = (UVM_READ if kind == "read" else UVM_WRITE), addr, data, be, 8 * w
            b = self.ad.reg2bus(op)
            b.data, b.ok = data, True
            self.mon.write(b)
        box["send"] = send

    def connect(self, phase):
        self.conn()
        m = box["map"]
        m.set_sequencer(self.sqr, self.ad)
        m.set_auto_predict(False)
        m.set_check_on_read(case["cor"])
        self.pred.map = m
        self.pred.adapter = self.ad
        self.mon.connect(self.pred.bus_in)
        self.pred.reg_ap.connect(box["sub"].analysis_export)

    def build2(self, phase):
        build(self, phase)
        from uvm import UVMSubscriber

        class Sub(UVMSubscriber):
            def write(self, t):
                check(t.map is box["map"], "map of the published item")
                calls.append(["ap", t.element.get_name(), {UVM_READ: "read", UVM_WRITE: "write"}[t.kind], t.value[0]])
        box["sub"] = Sub("sub", self)
    top = comp_class("R07Top", {"build_phase": build2, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    late = rep.errors()[box["e"]:]
    eq(len(late), int(bool(pend)), "errors after the run phase: %r" % late)
    if pend:
        for n, c in enumerate(recs):
            eq(c["reg"].get_full_name() in late[0][2].replace("\n", " ").split() or c["reg"].get_full_name() in late[0][2].split("\n"), n in pend, "incomplete register %s named in %r" % (c["name"], late[0][2]))
    check(not [x for x in rep.warnings()], "unexpected warning %r", rep.warnings()[:2])
    return {"nontrivial": st["nt"] > 0, "completed": st["done"], "live": int(live)}
