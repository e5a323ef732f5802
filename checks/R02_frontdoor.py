from util import *
from regs import *

ID = "R02"
META = {
    "title": "Front-door register accesses keep mirror, desired value and DUT in step",
    "statement": "For every register layout, map rights and history of write, read, update and mirror operations, from one thread or several at once, each operation puts exactly the prescribed access on the bus (update only if needed), accesses to one register never interleave, read returns what the DUT returned and status tells whether the bus reported an error. With auto-prediction the mirror afterwards is the state of the DUT field by field under all access policies, and after update() the DUT holds the desired value where the policy can express it. mirror(UVM_CHECK), and read with check-on-read, report an error exactly when a checked readable field differs from its mirror, and name each such field with both values; without auto-prediction the mirror does not change. After reset() a register whose accessing process was killed can be accessed again.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all field layouts, policies, values, operation histories, hardware changes between accesses, bus delays and errors, response styles and thread interleavings",
    "why": "Tests write and read back plain RW values in one thread; policies, hardware changes, bus errors and concurrency are where mirror and DUT drift apart.",
    "files": ["src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_reg_field.py", "src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg_adapter.py"],
    "mech": [["UVMReg.write / read / update / mirror / XatomicX / do_check", "src/uvm/reg/uvm_reg.py"], ["UVMRegField.XupdateX / XpredictX", "src/uvm/reg/uvm_reg_field.py"], ["UVMRegMap.do_bus_write / do_bus_read", "src/uvm/reg/uvm_reg_map.py"]],
    "note": "Whole tests on a simulated bus; a DUT model with the policies of the standard is compared with the register model after every operation.",
}
RULE = "a field with a policy other than RW changed in the DUT through a register operation"
N = (90, 9000)
ASSUMPTIONS = ["registers are not wider than the bus", "no callbacks"]
SET_POLS = ("RW", "WRC", "WRS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T", "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WO")


def strategy():
    def fn(g):
        n = g.pick([32, 32, 8, 64, 16])
        regs = []
        for i in range(g.i(1, 3)):
            fields = gen_fields(g, g.pick([n, n, max(n // 2, 8)]))
            for f in fields:
                f["vol"] = int(g.b(1, 7))
            regs.append({"fields": fields, "rights": g.pick(["RW", "RW", "RW", "RW", "RO", "WO"])})
        single = g.b(3, 4)
        threads = []
        for _ in range(1 if single else g.i(2, 3)):
            ops = []
            for _ in range(g.i(1, 9 if single else 5)):
                k = g.i(0, 11)
                r = g.i(0, len(regs) - 1)
                if k < 3:
                    o = ["write", r, g.bits(n)]
                elif k < 5:
                    o = ["read", r]
                elif k == 5 and not single:
                    o = ["mirror", r, g.b()]
                elif k < 7 and single:
                    o = ["set", r, g.bits(n), g.i(0, 6)]
                elif k < 9 and single:
                    o = ["update", r]
                elif k == 9:
                    o = ["mirror", r, g.b(2, 3)]
                elif k == 10 and single:
                    o = ["hw", r, g.i(0, 5), g.bits(32)] if g.b(3, 4) else ["kill", r, g.bits(n), g.i(0, 3)]
                elif k == 11 and single and g.b(1, 2):
                    o = ["fail", r, g.pick(["write", "read", "mirror"]), g.bits(n)]
                else:
                    o = ["write", r, g.bits(n)]
                ops.append(o)
            threads.append(ops)
        return {"n": n, "regs": regs, "threads": threads, "auto": g.b(5, 6), "cor": g.b(1, 3), "rsp": g.b(1, 3), "junk": g.bits(64),
                "delays": [g.pick([0, 0, 1, 3]) for _ in range(3)], "gap": [g.pick([0, 0, 0, 1]) for _ in range(4)], "path": g.b(), "usemap": g.b()}
    return gen(fn, 420)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_FRONTDOOR, UVM_DEFAULT_PATH, UVM_CHECK, UVM_NO_CHECK,
                                       UVM_IS_OK, UVM_NOT_OK)
    rep = Reports()
    n = case["n"]
    nb = n // 8
    duts = [DutReg(r["fields"], n) for r in case["regs"]]
    for d in duts:
        d.junk = case["junk"]
    models = [[FieldState(f) for f in r["fields"]] for r in case["regs"]]
    for ms in models:
        for m in ms:
            m.reset()
    st = {"fail": False, "nontriv": 0, "ops": 0, "bus": 0, "err": 0, "busy": {}, "conc": 0, "running": 0}
    auto = case["auto"]

    def dut(kind, addr, data, be):
        i = addr // nb
        check(addr % nb == 0 and 0 <= i < len(duts), "bus access at %#x", addr)
        eq(be, (1 << nb) - 1, "byte enables")
        st["bus"] += 1
        d, rights = duts[i], case["regs"][i]["rights"]
        before = dict(d.v)
        ok = not st["fail"]
        res = 0
        if kind == "write":
            if ok:
                d.write(data, rights)
        else:
            res = d.read(rights)
        if any(before[f["name"]] != d.v[f["name"]] and f["pol"] != "RW" for f in d.fields):
            st["nontriv"] += 1
        if ok:
            for m in models[i]:
                if not auto:
                    continue
                m.predict(kind, (data if kind == "write" else res) >> m.lsb & m.mask, True, rights)
        last[i] = (kind, data if kind == "write" else res, dict(before))
        return res, ok
    last = {}
    top_box = {}

    def compare(self, what):
        for i, ms in enumerate(models):
            for m in ms:
                f = self.regs[i].fl[m.spec["name"]]
                eq((f.get_mirrored_value(), f.get()), (m.mir, m.des), "%s: mirrored, desired value of register %d %s (%s)" % (what, i, m.spec["name"], m.pol))

    def mismatch(i, exp, got):
        """The fields for which a check of a read value against exp (field values) fails"""
        out = []
        for m in models[i]:
            if m.spec["vol"] or m.pol in WRITE_ONLY:
                continue
            if exp[m.spec["name"]] != got >> m.lsb & m.mask:
                out.append((m.spec["name"], got >> m.lsb & m.mask, exp[m.spec["name"]]))
        return out

    def named(i, n0, bad, what):
        """The lines that tell which fields differ"""
        got = [m[2].lower() for m in rep.of(0, "RegModel") if m[2].startswith("Field ")][n0:]
        eq(len(got), len(bad), what + ": lines about differing fields %r, fields %r" % (got, bad))
        for name, val, mir in bad:
            check(any("field %s " % name in x and "'h%x mirrored" % val in x and x.strip().endswith("'h%x" % mir) for x in got), "%s: no line about field %s read %#x mirrored %#x: %r",
                  what, name, val, mir, got)

    async def op(self, o, what, single):
        i = o[1]
        reg = self.regs[i]
        kw = {"path": UVM_FRONTDOOR if case["path"] else UVM_DEFAULT_PATH}
        if case["usemap"]:
            kw["_map"] = self.map
        status, val = [], []
        bus0 = st["bus"]
        errs = len(rep.errors())
        lines = len([m for m in rep.of(0, "RegModel") if m[2].startswith("Field ")])
        ms = models[i]
        if single and o[0] in ("read", "mirror"):
            exp = {m.spec["name"]: m.mir for m in ms}
        rights = case["regs"][i]["rights"]
        if o[0] == "write":
            if single:
                for m in ms:
                    m.set(o[2] >> m.lsb & m.mask)
            await reg.write(status, o[2], **kw)
            eq(status, [UVM_IS_OK], what + ": status")
            if single:
                eq(last[i][:2], ("write", o[2]), what + ": bus access")
        elif o[0] == "read":
            await reg.read(status, val, **kw)
            eq(status, [UVM_IS_OK], what + ": status")
            eq(len(val), 1, what + ": values")
            if single:
                eq(("read", val[0]), last[i][:2], what + ": value returned")
                bad = case["cor"] and auto and mismatch(i, exp, val[0])
                if rights == "RW":
                    eq(len(rep.errors()) - errs, int(bool(bad)), what + ": check-on-read errors (mirror %r, read %#x)" % (exp, val[0]))
                    named(i, lines, bad or [], what)
                return 1, val[0]
            return 1, val[0]
        elif o[0] == "mirror":
            await reg.mirror(status, UVM_CHECK if o[2] else UVM_NO_CHECK, **kw)
            eq(status, [UVM_IS_OK], what + ": status")
            if single and rights == "RW":
                bad = mismatch(i, exp, last[i][1])
                eq(len(rep.errors()) - errs, int(bool(bad and o[2])) + int(bool(bad and case["cor"] and auto)), what + ": mirror check errors (mirror %r, read %#x)" % (exp, last[i][1]))
                if bool(o[2]) + (case["cor"] and auto) == 1:
                    named(i, lines, bad, what)
        elif o[0] == "set":
            if o[3] < len(ms):
                m = ms[o[3]]
                reg.fl[m.spec["name"]].set(o[2] & m.mask)
                m.set(o[2] & m.mask)
            else:
                reg.set(o[2])
                for m in ms:
                    m.set(o[2] >> m.lsb & m.mask)
        elif o[0] == "update":
            need = any(m.des != m.mir or m.spec["vol"] for m in ms)
            want = {m.spec["name"]: m.des for m in ms}
            sync = all(m.mir == duts[i].v[m.spec["name"]] for m in ms)
            once = dict(duts[i].once)
            prev = dict(duts[i].v)
            await reg.update(status, **kw)
            eq(status, [UVM_IS_OK], what + ": status")
            eq(st["bus"] - bus0, int(need), what + ": bus accesses")
            if need and not auto:
                # the write that update() does leaves its value as the desired one
                for m in ms:
                    m.set(last[i][1] >> m.lsb & m.mask)
            if need and sync and rights == "RW":
                for m in ms:
                    nm = m.spec["name"]
                    if m.pol in SET_POLS or (m.pol in ("W1", "WO1") and not once[nm]):
                        eq(duts[i].v[nm], want[nm], "%s: DUT value of %s (%s), was %#x" % (what, nm, m.pol, prev[nm]))
            return
        elif o[0] == "hw":
            m = ms[o[2] % len(ms)]
            duts[i].v[m.spec["name"]] = o[3] & m.mask
            st["hw"] = 1
        elif o[0] == "kill":
            # the process of an access dies; reset() makes the register accessible again
            t = cocotb.start_soon(reg.write(status, o[2], **kw))
            for _ in range(o[3]):
                await Timer(500, "ps")
            done = t.done()
            t.kill()
            await Timer(10000, "ps")
            if not done:
                st["nontriv"] += 1
            reg.reset()
            check(not reg.is_busy(), "%s: busy after reset()", what)
            for m in ms:
                v = duts[i].v[m.spec["name"]]
                reg.fl[m.spec["name"]].reset()
                m.once = False
                duts[i].once[m.spec["name"]] = False
                reg.fl[m.spec["name"]].predict(v)
                m.mir = m.des = v
        elif o[0] == "fail":
            st["fail"] = True
            if o[2] == "write":
                await reg.write(status, o[3], **kw)
            elif o[2] == "read":
                await reg.read(status, val, **kw)
            else:
                await reg.mirror(status, UVM_CHECK, **kw)
            st["fail"] = False
            eq(status, [UVM_NOT_OK], what + ": status after a bus error")
            # resynchronise: what the model predicts for a failed access is not prescribed
            for m in ms:
                v = duts[i].v[m.spec["name"]]
                reg.fl[m.spec["name"]].reset()
                m.once = False
                duts[i].once[m.spec["name"]] = False
                reg.fl[m.spec["name"]].predict(v)
                m.mir = m.des = v
            st["resync"] = len(rep.errors())
        if single and o[0] in ("write", "read", "mirror", "fail"):
            eq(st["bus"] - bus0, 1, what + ": bus accesses")

    async def thread(self, t, ops):
        single = len(case["threads"]) == 1
        for k, o in enumerate(ops):
            gap = case["gap"][(t + k) % 4]
            if gap:
                await Timer(gap * 1000, "ps")
            what = "thread %d op %d %r" % (t, k, o)
            st["ops"] += 1
            st["running"] += 1
            if st["running"] > 1:
                st["conc"] += 1
            await op(self, o, what, single)
            st["running"] -= 1
            if single:
                compare(self, what)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        ts = [cocotb.start_soon(thread(self, t, ops)) for t, ops in enumerate(case["threads"])]
        for t in ts:
            await t
        await Timer(1000, "ps")
        if len(ts) > 1:
            eq(st["bus"], sum(len(t) for t in case["threads"]), "bus accesses")
            writes = sorted((o[1] * nb, o[2]) for t in case["threads"] for o in t if o[0] == "write")
            eq(sorted((a, d) for k, a, d, _, _ in self.log if k == "write"), writes, "writes seen on the bus")
            if auto:
                compare(self, "at the end")
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr, self.ad, self.log, self.conn = bus_env(self, dut, case["rsp"], case["delays"])
        self.blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
        self.map = self.blk.default_map = self.blk.create_map("map", 0, nb, UVM_LITTLE_ENDIAN)
        self.regs = []
        for i, r in enumerate(case["regs"]):
            x = make_reg("r%d" % i, n, r["fields"])
            x.configure(self.blk)
            self.map.add_reg(x, i * nb, r["rights"])
            self.regs.append(x)
        self.blk.lock_model()
        self.blk.reset()

    def connect(self, phase):
        self.conn()
        self.map.set_sequencer(self.sqr, self.ad)
        self.map.set_auto_predict(auto)
        self.map.set_check_on_read(case["cor"])
    top = comp_class("R02Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    check(not rep.warnings(), "unexpected warning %r", rep.warnings()[:2])
    if len(case["threads"]) > 1 and all(r["rights"] == "RW" for r in case["regs"]) and auto:
        check(not rep.errors(), "unexpected error %r", rep.errors()[:2])
    return {"nontrivial": st["nontriv"] > 0, "ops": st["ops"], "concurrent": st["conc"]}
