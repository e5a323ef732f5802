from util import *
from regs import *

ID = "R06"
META = {
    "title": "FIFO and indirect registers mirror a hardware FIFO and a register array",
    "statement": "For every history of set, update, write, read, mirror and predict operations on a FIFO register, its abstract FIFO is the hardware FIFO followed by the values preloaded but not yet updated: values are written and read in order and none is lost or doubled, a set to a full FIFO is ignored, a write to a full FIFO or while an update is pending is refused with an error, a read of an empty one is refused, both without a bus access, update writes exactly the preloaded values, and a read value differing from the front is reported exactly when checking is enabled. An access to an element of an indirect register array writes its index to the index register and then accesses the data register once, never interleaved with another element's access; an access to the data register reaches the element the index selects, an index beyond the array is an error, and the mirror of each element follows its own hardware register. A bus error is returned as the status and leaves the registers usable.",
    "over": ["histories", "inputs", "schedules"],
    "quant": "all FIFO depths and widths, operation histories, hardware corruption, array sizes, element layouts, index values, thread interleavings, bus errors and delays",
    "why": "The one example fills a FIFO register completely and empties it again; partial filling, refusals, mismatches and indirect registers are untested.",
    "files": ["src/uvm/reg/uvm_reg_fifo.py", "src/uvm/reg/uvm_reg_indirect.py", "src/uvm/reg/uvm_reg_item.py", "src/uvm/reg/uvm_reg.py"],
    "mech": [["UVMRegFIFO.set / get / update / do_predict / pre_write / pre_read", "src/uvm/reg/uvm_reg_fifo.py"],
             ["UVMRegIndirectData.configure / add_frontdoors / do_predict / write and uvm_reg_indirect_ftdr_seq.body", "src/uvm/reg/uvm_reg_indirect.py"]],
    "note": "Whole tests on a simulated bus with a hardware FIFO or register array behind it, compared with the model after every operation.",
}
RULE = "a FIFO history with a refusal, a partial update or a mismatch, or an indirect history with two or more elements"
N = (110, 10000)
ASSUMPTIONS = ["set() is followed by update() before other accesses where the documentation demands it (otherwise only the refusal is checked)",
               "elements of the array are not mapped themselves and have no toggling (W1T, W0T) fields", "reset() of a FIFO register does not empty it"]
IND_POLS = [p for p in POLICIES if p not in ("W1T", "W0T")]


def strategy():
    def fn(g):
        if g.b():
            n = g.pick([32, 8, 16, 24])
            ops = []
            for _ in range(g.i(3, 16)):
                k = g.i(0, 12)
                ops.append([["write", "read", "write", "read", "set", "set", "update", "setup", "mirror", "corrupt", "predict", "fail", "failup"][k], g.bits(n), g.i(1, 4)])
            return {"mode": "fifo", "n": n, "cap": g.pick([2, 1, 3, 8]), "ops": ops, "auto": g.b(5, 6), "cor": g.b(1, 3), "cmp": g.b(2, 3),
                    "rsp": g.b(1, 3), "delays": [g.pick([0, 0, 1]) for _ in range(3)]}
        n = g.pick([32, 8, 16])
        regs = [{"fields": gen_fields(g, n, IND_POLS, maxf=3)} for _ in range(g.pick([2, 1, 3, 5]))]
        one = g.b(2, 3)
        threads = []
        for _ in range(1 if one else g.i(2, 3)):
            ops = []
            for _ in range(g.i(1, 7)):
                k = g.i(0, 9 if one else 4)
                i = g.i(0, len(regs) - 1)
                ops.append([["write", "read", "write", "read", "mirror", "iwrite", "iread", "far", "update", "fail"][k], i, g.bits(n), g.i(0, 3)])
            threads.append(ops)
        return {"mode": "ind", "n": n, "regs": regs, "threads": threads, "auto": g.b(5, 6), "rsp": g.b(1, 3), "delays": [g.pick([0, 0, 1, 2]) for _ in range(3)],
                "gap": [g.pick([0, 0, 0, 1]) for _ in range(4)], "sub": g.b(1, 3)}
    return gen(fn, 300)


def run(case):
    return (run_fifo if case["mode"] == "fifo" else run_ind)(case)


def bench(case, nb, build_model, ops, dut, name):
    """One test component around a register model on a simulated bus."""
    from uvm import UVMComponent

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr, self.ad, self.log, self.conn = bus_env(self, dut, case["rsp"], case["delays"])
        build_model(self)

    def connect(self, phase):
        self.conn()
        self.map.set_sequencer(self.sqr, self.ad)
        self.map.set_auto_predict(case["auto"])
        self.map.set_check_on_read(case.get("cor", False))

    async def run_phase(self, phase):
        phase.raise_objection(self)
        await ops(self)
        phase.drop_objection(self)
    uvm_run(comp_class(name, {"build_phase": build, "connect_phase": connect, "run_phase": run_phase}))


def run_fifo(case):
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_fifo import UVMRegFIFO
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_CHECK, UVM_NO_CHECK, UVM_IS_OK, UVM_NOT_OK, UVM_PREDICT_WRITE, UVM_PREDICT_READ,
                                       UVM_PREDICT_DIRECT)
    rep = Reports()
    n, cap, auto = case["n"], case["cap"], case["auto"]
    nb = n // 8
    hw, model = [], []                     # hardware FIFO, abstract FIFO
    st = {"bus": 0, "fail": False, "special": 0, "pend": 0, "reads": 0}

    def dut(kind, addr, data, be):
        eq(addr, 0x10, "bus address")
        st["bus"] += 1
        if st["fail"]:
            return 0, False
        if kind == "write":
            check(len(hw) < cap or not auto, "hardware FIFO overflow")
            if len(hw) < cap:
                hw.append(data)
            return 0, True
        check(hw, "hardware FIFO underflow")
        return hw.pop(0), True

    def build_model(self):
        self.blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
        self.map = self.blk.default_map = self.blk.create_map("map", 0, nb, UVM_LITTLE_ENDIAN)
        self.f = UVMRegFIFO("fifo", cap, n, UVM_NO_COVERAGE)
        self.f.configure(self.blk, None)
        self.f.build()
        self.map.add_reg(self.f, 0x10)
        self.blk.lock_model()
        self.blk.reset()
        self.f.set_compare(UVM_CHECK if case["cmp"] else UVM_NO_CHECK)

    async def ops(self):
        f = self.f
        eq(f.capacity(), cap, "capacity")
        for k, (name, v, cnt) in enumerate(case["ops"]):
            what = "op %d %s %#x %d (abstract %r, hardware %r, pending %d)" % (k, name, v, cnt, model, hw, st["pend"])
            status, val = [], []
            bus0, e0, w0 = st["bus"], len(rep.errors()), len(rep.warnings())
            eb = errs = warns = 0
            if name == "set":
                f.set(v)
                if len(model) < cap:
                    model.append(v)
                    st["pend"] += 1
                else:
                    st["special"] += 1
            elif name in ("setup", "update", "failup"):
                if name == "setup":
                    for j in range(cnt):
                        f.set(v + j & (1 << n) - 1)
                        if len(model) < cap:
                            model.append(v + j & (1 << n) - 1)
                            st["pend"] += 1
                if st["pend"]:
                    st["special"] += len(model) < cap
                eb = st["pend"]
                want = model[len(model) - eb:]
                st["fail"] = name == "failup"
                await f.update(status)
                st["fail"] = False
                eq(status[-1:], [UVM_NOT_OK if name == "failup" and eb else UVM_IS_OK], what + ": status")
                if name == "failup":        # as if they had arrived nevertheless
                    hw.extend(want[:max(0, cap - len(hw))])
                    st["special"] += bool(eb)
                eq([d for kk, a, d, _, _ in self.log[-eb:] if kk == "write"] if eb else [], want, what + ": values written")
                st["pend"] = 0
            elif name == "write" or name == "fail":
                if name == "fail":
                    if st["pend"] or len(model) >= cap:
                        continue
                    st["fail"] = True
                await f.write(status, v)
                st["fail"] = False
                if st["pend"] or len(model) >= cap:
                    errs = 1
                    st["special"] += 1
                    eq(status, [UVM_NOT_OK], what + ": status of a refused write")
                elif name == "fail":
                    eb = 1
                    eq(status, [UVM_NOT_OK], what + ": status after a bus error")
                    if auto:
                        # predicted all the same, or not: not prescribed
                        check(f.size() in (len(model), len(model) + 1), what + ": size")
                        while f.size() > len(model):
                            f.fifo.pop()
                else:
                    eb = 1
                    eq(status, [UVM_IS_OK], what + ": status")
                    eq((self.log[-1][0], self.log[-1][2]), ("write", v), what + ": value written")
                    if auto:
                        model.append(v)
            elif name == "read" or name == "mirror":
                front = model[0] if model else None
                chk = name == "mirror" and cnt & 1
                if not model:
                    st["special"] += 1
                    await f.read(status, val)
                    eq(status, [UVM_NOT_OK], what + ": status of a read from an empty FIFO")
                elif st["pend"] >= len(model) or not hw:
                    continue
                else:
                    eb = 1
                    exp = hw[0]
                    bad = case["cmp"] and exp != front
                    if name == "read":
                        await f.read(status, val)
                        eq(val, [exp], what + ": value read")
                    else:
                        await f.mirror(status, UVM_CHECK if chk else UVM_NO_CHECK)
                    eq(status, [UVM_IS_OK], what + ": status")
                    if auto:
                        model.pop(0)
                        warns = int(bad)
                        errs = int(bad and case["cor"])
                    errs += int(bad and bool(chk))
                    st["special"] += bad
                    st["reads"] += 1
            elif name == "corrupt":
                if hw:
                    hw[v % len(hw)] ^= 1 << (cnt % n)
                continue
            elif name == "predict" and not st["pend"]:
                # what a monitor of the bus would do
                if len(hw) > len(model) and not auto:
                    f.predict(hw[len(model)], kind=UVM_PREDICT_WRITE)
                    model.append(hw[len(model)])
                elif len(hw) < len(model) and not auto:
                    x = model.pop(0)
                    f.predict(x ^ (cnt & 1), kind=UVM_PREDICT_READ)
                    warns = int(case["cmp"] and cnt & 1)
                elif cnt < 3 and len(model) == cap:     # no room: nothing changes
                    f.predict(v)
                    st["special"] += 1
                elif len(model) < cap and cnt == 1:
                    f.predict(v)
                    model.append(v)
                    hw.append(v)
            eq(st["bus"] - bus0, eb, what + ": bus accesses")
            eq(len(rep.errors()) - e0, errs, what + ": errors %r" % rep.errors()[e0:])
            eq(len(rep.warnings()) - w0, warns, what + ": warnings %r" % rep.warnings()[w0:])
            eq(f.size(), len(model), what + ": size()")
            eq(list(f.fifo), model, what + ": abstract FIFO")
            eq(f.get(), model[0] if model else 0, what + ": get()")
            if auto and not st["pend"]:
                eq(len(hw), len(model), what + ": entries of the hardware FIFO")
    bench(case, nb, build_model, ops, dut, "R06Fifo")
    return {"nontrivial": st["special"] > 0, "fifo": 1, "reads": st["reads"]}


def run_ind(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_indirect import UVMRegIndirectData
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_CHECK, UVM_NO_CHECK, UVM_IS_OK, UVM_NOT_OK
    rep = Reports()
    n, auto = case["n"], case["auto"]
    nb = n // 8
    regs = case["regs"]
    duts = [DutReg(r["fields"], n) for r in regs]
    models = [[FieldState(f) for f in r["fields"]] for r in regs]
    for ms in models:
        for m in ms:
            m.reset()
    base = 0x100 if case["sub"] else 0
    st = {"idx": 0, "fail": None, "bus": 0}
    seen = []

    def dut(kind, addr, data, be):
        st["bus"] += 1
        bad = st["fail"] == st["bus"]
        if addr == base:
            eq(kind, "write", "access to the index register")
            if not bad:
                st["idx"] = data
            seen.append(("idx", data))
            return 0, not bad
        eq(addr, base + 2 * nb, "bus address")
        seen.append((kind, st["idx"], data if kind == "write" else None))
        i = st["idx"]
        if i >= len(duts) or bad:
            return 0, not bad
        res = 0
        if kind == "write":
            duts[i].write(data)
        else:
            res = duts[i].read()
        if auto:
            for m in models[i]:
                m.predict(kind, (data if kind == "write" else res) >> m.lsb & m.mask)
        return res, True

    def build_model(self):
        self.top = UVMRegBlock("top", UVM_NO_COVERAGE)
        self.map = self.top.create_map("tmap", 0, nb, UVM_LITTLE_ENDIAN)
        blk, mp = self.top, self.map
        if case["sub"]:
            blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
            blk.configure(self.top)
            mp = blk.create_map("map", 0, nb, UVM_LITTLE_ENDIAN)
        self.idx = make_reg("idx", n, [{"name": "f", "lsb": 0, "n": 8, "pol": "RW", "vol": 0, "reset": 0}])
        self.idx.configure(blk)
        self.regs = []
        for i, r in enumerate(regs):
            x = make_reg("r%d" % i, n, r["fields"])
            x.configure(blk)
            self.regs.append(x)
        self.data = UVMRegIndirectData("data", n, UVM_NO_COVERAGE)
        self.data.configure(self.idx, self.regs, blk)
        self.data.build()
        mp.add_reg(self.idx, 0)
        mp.add_reg(self.data, 2 * nb)
        if case["sub"]:
            self.map.add_submap(mp, base)
        self.top.lock_model()
        self.top.reset()

    def compare(self, what):
        for i, ms in enumerate(models):
            for m in ms:
                f = self.regs[i].fl[m.spec["name"]]
                eq((f.get_mirrored_value(), f.get()), (m.mir, m.des), "%s: mirrored, desired value of element %d %s (%s)" % (what, i, m.spec["name"], m.pol))

    async def op(self, o, what, single):
        name, i, v, x = o
        status, val = [], []
        r, ms = self.regs[i], models[i]
        del_from = len(seen)
        e0 = len(rep.errors())
        want = None
        if name in ("write", "iwrite"):
            if single:
                for m in ms:
                    m.set(v >> m.lsb & m.mask)
            if name == "write":
                await r.write(status, v)
            else:
                await self.idx.write(status, i)
                r.set(v)
                eq(status, [UVM_IS_OK], what + ": status of the index write")
                status = []
                await self.data.write(status, v)
            want = [("idx", i), ("write", i, v)]
        elif name in ("read", "iread"):
            if name == "read":
                await r.read(status, val)
            else:
                await self.idx.write(status, i)
                status = []
                await self.data.read(status, val)
            want = [("idx", i), ("read", i, None)]
        elif name == "mirror":
            await r.mirror(status, UVM_NO_CHECK)
            want = [("idx", i), ("read", i, None)]
        elif name == "update":
            f = ms[x % len(ms)]
            r.fl[f.spec["name"]].set(v & f.mask)
            f.set(v & f.mask)
            need = any(m.des != m.mir for m in ms)
            await r.update(status)
            want = []
            if need:
                check(seen[del_from:], "%s: no bus access", what)
                want = [("idx", i), ("write", i, seen[-1][2])]
                if not auto:
                    for m in ms:
                        m.set(seen[-1][2] >> m.lsb & m.mask)
        elif name == "far":
            await self.idx.write(status, len(regs) + x)
            status = []
            if v & 1:
                await self.data.write(status, v)
            else:
                await self.data.read(status, val)
            if auto:
                eq(len(rep.errors()) - e0, 1, what + ": errors about the index beyond the array")
            want = [("idx", len(regs) + x), ("write", len(regs) + x, v) if v & 1 else ("read", len(regs) + x, None)]
            await self.idx.write([], 0)
            want.append(("idx", 0))
            e0 = len(rep.errors())
            status = [UVM_IS_OK]
        elif name == "fail":
            st["fail"] = st["bus"] + 1 + (x & 1)
            if v & 1:
                await r.write(status, v)
            else:
                await r.read(status, val)
            st["fail"] = None
            eq(status, [UVM_NOT_OK], what + ": status after a bus error")
            want = [("idx", i)] + ([("write", i, v) if v & 1 else ("read", i, None)] if x & 1 else [])
            if not x & 1 and len(seen) - del_from == 2:
                check(False, "%s: the data register was accessed although the index write failed", what)
            # what is predicted for a failed access is not prescribed
            for m in ms:
                y = duts[i].v[m.spec["name"]]
                f = r.fl[m.spec["name"]]
                f.reset()
                m.once = duts[i].once[m.spec["name"]] = False
                f.predict(y)
                m.mir = m.des = y
            status = [UVM_IS_OK]
        eq(status, [UVM_IS_OK], what + ": status")
        if single:
            eq(seen[del_from:], want, what + ": bus accesses")
        if name in ("read", "iread"):
            eq(len(val), 1, what + ": values")
            if single:
                # the value the hardware returned
                eq(("read", val[0]), (self.log[-1][0], self.log[-1][2]), what + ": value returned")
        eq(len(rep.errors()), e0, what + ": errors %r" % rep.errors()[e0:])

    async def thread(self, t, todo):
        single = len(case["threads"]) == 1
        for k, o in enumerate(todo):
            if case["gap"][(t + k) % 4]:
                await Timer(1000, "ps")
            what = "thread %d op %d %r" % (t, k, o)
            await op(self, o, what, single)
            if single:
                compare(self, what)

    async def ops(self):
        ts = [cocotb.start_soon(thread(self, t, todo)) for t, todo in enumerate(case["threads"])]
        for t in ts:
            await t
        if len(ts) > 1:
            # every access is its own pair
            pairs = list(zip(seen[::2], seen[1::2]))
            for a, b in pairs:
                check(a[0] == "idx" and b[0] != "idx" and b[1] == a[1], "interleaved accesses %r", seen)
            got = sorted((b[1], b[0], b[2] or 0) for a, b in pairs)
            want = sorted((o[1], "write" if o[0] == "write" else "read", o[2] if o[0] == "write" else 0) for t in case["threads"] for o in t)
            eq(got, want, "accesses seen by the hardware")
            if auto:
                compare(self, "at the end")
    bench(case, nb, build_model, ops, dut, "R06Ind")
    return {"nontrivial": len(set(o[1] for t in case["threads"] for o in t)) > 1, "indirect": 1, "threads": len(case["threads"])}
