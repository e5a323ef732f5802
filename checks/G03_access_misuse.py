from util import *
from regs import *

ID = "G03"
META = {
    "title": "Illegal register and memory accesses are refused without side effects",
    "statement": "Accesses that cannot be made are answered with the documented report and UVM_NOT_OK, reach neither the bus nor the mirror, and do not disturb later accesses: registers and memories addressed through a map that does not contain them or in which they are unmapped without a front door, memory offsets outside the memory, bursts past its end or through a narrower bus. Back-door accesses without a back door are reported and made through the front door. Setting a field or predicting a register directly while it is being accessed is reported; the direct prediction is refused. Every legal access in between behaves as if the refused ones had not been made.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all histories of legal and illegal writes, reads, updates, mirrors, bursts, predictions and sets on registers and memories in several maps, and bus delays",
    "why": "Error paths run only when a test bench is wrong; a lock kept, a mirror updated or a bus access made by a refused operation breaks the next legal one.",
    "files": ["src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_field.py", "src/uvm/reg/uvm_reg_map.py"],
    "mech": [["UVMReg.Xcheck_accessX / write / read / do_write / do_read / do_predict / XatomicX", "src/uvm/reg/uvm_reg.py"], ["UVMMem.Xcheck_accessX / do_write / do_read", "src/uvm/reg/uvm_mem.py"], ["UVMRegField.set / do_predict", "src/uvm/reg/uvm_reg_field.py"]],
    "note": "Random histories mixing legal and illegal accesses, against a model of bus, storage and mirror that ignores the illegal ones.",
}
RULE = "at least two illegal accesses were refused and two legal ones made after one"
N = (140, 12000)
ASSUMPTIONS = []
KINDS = ["write", "write", "read", "read", "mwrite", "mread", "bwrite", "bread", "wrongw", "wrongr", "wrongm", "wrongu", "unw", "unr", "bdw", "bdr", "mbdw", "mbdr",
         "mwrong", "mun", "moff", "mburst", "mnarrow", "bpred", "bset", "bfpred"]


def strategy():
    def fn(g):
        ops = [[g.pick(KINDS), g.i(0, 3), g.bits(32), g.i(0, 9), g.i(1, 4)] for _ in range(g.i(3, 16))]
        return {"ops": ops, "delays": [g.pick([0, 1, 2]) for _ in range(3)], "rsp": g.b(1, 3), "auto": g.b(4, 5), "size": g.pick([4, 5, 8]),
                "maps": g.i(1, 2), "gap": g.pick([0, 1])}
    return gen(fn, 220)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_BACKDOOR, UVM_CHECK, UVM_PREDICT_DIRECT, UVM_IS_OK, UVM_NOT_OK)
    rep = Reports()
    W, E = 1, 2
    size, auto = case["size"], case["auto"]
    bus = {}                                   # address -> value, as the DUT has it
    log = []
    mir = {"a": 0, "b": 0, "u": 0}             # reference mirror and desired values
    des = dict(mir)
    regs, mems = {}, {}
    st = {"refused": 0, "legal": 0, "ops": 0}
    AT = {"a": 0, "b": 4, "x": 0x40, "wide": 0x80}

    def dut(kind, addr, data, be):
        if kind == "write":
            bus[addr] = data
            return 0, True
        return bus.get(addr, 0), True

    def build_phase(self, phase):
        self.sqr, self.ad, self.buslog, self.bus_connect = bus_env(self, dut, case["rsp"], case["delays"])
        blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
        m0 = blk.create_map("m0", 0, 4, UVM_LITTLE_ENDIAN)
        m1 = blk.create_map("m1", 0, 4, UVM_LITTLE_ENDIAN)
        for n in "abu":
            regs[n] = make_reg(n, 32, [{"name": "f", "lsb": 0, "n": 32, "pol": "RW", "reset": 0, "vol": 0, "soft": None}])
            regs[n].configure(blk)
        m0.add_reg(regs["a"], 0)
        m0.add_reg(regs["b"], 4)
        m1.add_reg(regs["b"], 4)
        m0.add_reg(regs["u"], 0, "RW", 1)
        if case["maps"] == 2:
            m1.add_reg(regs["u"], 0, "RW", 1)
        mems["x"] = UVMMem("x", size, 32)
        mems["wide"] = UVMMem("wide", size, 64)
        mems["un"] = UVMMem("un", size, 32)
        for n in ("x", "wide", "un"):
            mems[n].configure(blk)
        m0.add_mem(mems["x"], 0x40)
        m0.add_mem(mems["wide"], 0x80)
        m0.add_mem(mems["un"], 0, "RW", 1)
        blk.lock_model()
        self.blk, self.m0, self.m1 = blk, m0, m1

    def connect_phase(self, phase):
        self.bus_connect()
        for m in (self.m0, self.m1):
            m.set_sequencer(self.sqr, self.ad)
            m.set_auto_predict(auto)

    def reports():
        got = [m for m in rep.msgs if m[0] >= 1]
        rep.msgs[:] = []
        return got

    def expect(what, exp):
        got = reports()
        ok = len(got) == len(exp) and all(a[0] == b[0] and a[1] == b[1] and all(s.lower() in a[2].lower() for s in b[2]) for a, b in zip(got, exp))
        check(ok, "%s: reports are %r, expected %r", what, got, exp)

    def compare(what):
        for n, r in regs.items():
            eq((r.get_mirrored_value(), r.get()), (mir[n], des[n]), "%s: mirrored and desired value of %s" % (what, n))
            check(not r.is_busy(), "%s: %s is busy after the access", what, n)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        for i, (kind, k, v, off, n) in enumerate(case["ops"]):
            what = "op %d %s" % (i, kind)
            status, val = [], []
            nbus = len(self.buslog)
            bk = len(bus) and dict(bus) or {}
            want_bus, want_status, exp, refused = 0, UVM_IS_OK, [], False
            rn = "ab"[k % 2]
            r, x = regs[rn], mems["x"]
            off_ = off % size
            n_ = min(n, size - off_)
            if kind in ("write", "bdw"):
                kw = {"path": UVM_BACKDOOR} if kind == "bdw" else {}
                des[rn] = v
                await r.write(status, v, **kw)
                bk[AT[rn]] = v
                if auto:
                    mir[rn] = v
                want_bus = 1
                if kw:
                    exp = [(W, "RegModel", ["No backdoor access", "'%s'" % r.get_full_name()])]
            elif kind in ("read", "bdr"):
                kw = {"path": UVM_BACKDOOR} if kind == "bdr" else {}
                await r.read(status, val, **kw)
                eq(val, [bk.get(AT[rn], 0)], what + ": value")
                if auto:
                    mir[rn] = des[rn] = val[0]
                want_bus = 1
                if kw:
                    exp = [(W, "RegModel", ["No backdoor access", "'%s'" % r.get_full_name()])]
            elif kind in ("mwrite", "mbdw"):
                kw = {"path": UVM_BACKDOOR} if kind == "mbdw" else {}
                await x.write(status, off_, v, **kw)
                bk[0x40 + 4 * off_] = v
                want_bus = 1
                if kw:
                    exp = [(W, "RegModel", ["No backdoor access", "'%s'" % x.get_full_name()])]
            elif kind in ("mread", "mbdr"):
                kw = {"path": UVM_BACKDOOR} if kind == "mbdr" else {}
                await x.read(status, off_, val, **kw)
                eq(val, [bk.get(0x40 + 4 * off_, 0)], what + ": value")
                want_bus = 1
                if kw:
                    exp = [(W, "RegModel", ["No backdoor access", "'%s'" % x.get_full_name()])]
            elif kind == "bwrite":
                await x.burst_write(status, off_, [(v + j) & 0xffffffff for j in range(n_)])
                for j in range(n_):
                    bk[0x40 + 4 * (off_ + j)] = (v + j) & 0xffffffff
                want_bus = n_
            elif kind == "bread":
                val = [0] * n_
                await x.burst_read(status, off_, val)
                eq(val, [bk.get(0x40 + 4 * (off_ + j), 0) for j in range(n_)], what + ": values")
                want_bus = n_
            elif kind.startswith("wrong"):
                r, rn = regs["a"], "a"
                refused = True
                exp = [(W, "RegModel", ["'%s'" % r.get_full_name(), "not contained", "'%s'" % self.m1.get_full_name()]),
                       (E, r.get_type_name(), ["No transactor", "'%s'" % self.m1.get_full_name()])]
                if kind == "wrongw":
                    des[rn] = v
                    await r.write(status, v, _map=self.m1)
                elif kind == "wrongr":
                    await r.read(status, val, _map=self.m1)
                elif kind == "wrongm":
                    exp = exp[:1]
                    await r.mirror(status, UVM_CHECK, _map=self.m1)
                else:
                    r.set(v)
                    des[rn] = v
                    if mir[rn] == v:
                        refused, exp = False, []      # nothing to update
                    await r.update(status, _map=self.m1)
            elif kind in ("unw", "unr"):
                r = regs["u"]
                refused = True
                mp = [None, self.m0, self.m1][k % (3 if case["maps"] == 2 else 2)]
                exp = [(E, "RegModel", ["'%s'" % r.get_full_name(), "unmapped", "'%s'" % (mp or self.m0).get_full_name()])]
                if kind == "unw":
                    des["u"] = v
                    await r.write(status, v, _map=mp)
                else:
                    await r.read(status, val, _map=mp)
            elif kind == "mwrong":
                refused = True
                exp = [(W, "RegModel", ["'%s'" % x.get_full_name(), "not contained", "'%s'" % self.m1.get_full_name()]), (E, x.get_type_name(), ["No transactor", "'%s'" % self.m1.get_full_name()])]
                if k % 2:
                    await x.write(status, off_, v, _map=self.m1)
                else:
                    await x.read(status, off_, val, _map=self.m1)
            elif kind == "mun":
                y = mems["un"]
                refused = True
                exp = [(E, "RegModel", ["'%s'" % y.get_full_name(), "unmapped", "'%s'" % self.m0.get_full_name()])]
                if k % 2:
                    await y.write(status, off_, v)
                else:
                    await y.read(status, off_, val)
            elif kind == "moff":
                o = size + off % 3
                refused = True
                exp = [(E, x.get_type_name(), ["'h%x" % o, "'h%x" % size, "exceeds size"])]
                if k % 2:
                    await x.write(status, o, v)
                else:
                    await x.read(status, o, val)
            elif kind == "mburst":
                o, m = size - n, n + 1 + off % 2
                if o < 0:
                    continue
                refused = True
                exp = [(E, "RegModel", ["Burst of size 'd%d" % m, "offset 'd%d" % o, "exceeds size of memory, 'd%d" % size])]
                if k % 2:
                    await x.burst_write(status, o, [v] * m)
                else:
                    val = [0] * m
                    await x.burst_read(status, o, val)
            elif kind == "mnarrow":
                y = mems["wide"]
                refused = True
                exp = [(E, "RegModel", ["burst a 64-bit memory"])]
                if k % 2:
                    await y.burst_write(status, 0, [v, v])
                else:
                    val = [0, 0]
                    await y.burst_read(status, 0, val)
            else:                                                    # while the register is being accessed
                box = {}

                async def access():
                    s = []
                    await r.write(s, v)
                    box["s"] = s
                self.hold = True
                t = cocotb.start_soon(access())
                await Timer(500, "ps")
                busy = "s" not in box
                check(busy == r.is_busy(), "%s: is_busy() is %r", what, r.is_busy())
                other = (v ^ 0x55) & 0xffffffff
                f = r.fl["f"]
                if not busy:
                    bk[AT[rn]] = v
                    des[rn] = v
                    if auto:
                        mir[rn] = v
                elif kind == "bset":
                    f.set(other)
                    exp = [(W, "UVM/FLD/SET/BSY", ["\"f\"", "\"%s\"" % r.get_full_name()])]
                    eq(f.get(), other, what + ": desired value")
                    des[rn] = other
                elif kind == "bpred":
                    check(not r.predict(other, -1, UVM_PREDICT_DIRECT), "%s: a direct prediction of a busy register succeeds", what)
                    eq(r.get_mirrored_value(), mir[rn], what + ": mirror after a refused prediction")
                    exp = [(W, "RegModel", ["'%s'" % r.get_full_name(), "being accessed"])]
                    des[rn] = v
                else:
                    check(not f.predict(other, -1, UVM_PREDICT_DIRECT), "%s: a direct prediction of a field of a busy register succeeds", what)
                    exp = [(W, "RegModel", ["'f'", "'%s'" % r.get_full_name(), "being accessed"])]
                    mir[rn] = des[rn] = f.get_mirrored_value()     # (its value is not specified)
                await Timer(5000, "ps")
                check("s" in box, "%s: the access does not end", what)
                status = box["s"]
                bk[AT[rn]] = v
                if auto:
                    mir[rn] = des[rn] = v
                want_bus = 1
            if refused:
                want_status = UVM_NOT_OK
                st["refused"] += 1
            elif st["refused"]:
                st["legal"] += 1
            st["ops"] += 1
            if not (kind == "wrongu" and not refused):
                eq(status[-1:], [want_status], what + ": status")
            expect(what, exp)
            eq(len(self.buslog) - nbus, want_bus, what + ": bus accesses")
            eq(bus, bk, what + ": DUT contents")
            compare(what)
            if case["gap"]:
                await Timer(1000, "ps")
        phase.drop_objection(self)

    Top = comp_class("G03Top", {"build_phase": build_phase, "connect_phase": connect_phase, "run_phase": run_phase}, UVMComponent)
    uvm_run(Top)
    expect("at the end", [])
    eq(st["ops"] <= len(case["ops"]) and st["ops"] > 0 or not case["ops"], True, "operations made")
    return {"nontrivial": st["refused"] >= 2 and st["legal"] >= 2, "refused": st["refused"], "legal": st["legal"]}
