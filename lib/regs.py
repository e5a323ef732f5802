"""Reference semantics of the register access policies (IEEE 1800.2 table of
pre-defined policies) and a simulated bus with a DUT behind it."""
from util import *

POLICIES = ["RW", "RO", "RC", "RS", "WRC", "WRS", "WC", "WS", "WSRC", "WCRS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T",
            "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WO", "WOC", "WOS", "W1", "WO1"]
WRITE_ONLY = ("WO", "WOC", "WOS", "WO1")


def written(pol, cur, v, mask, once):
    """Field value after v is written; once: has it been written since the reset?"""
    if pol in ("RO", "RC", "RS"):
        return cur
    if pol in ("RW", "WRC", "WRS", "WO"):
        return v
    if pol in ("WC", "WCRS", "WOC"):
        return 0
    if pol in ("WS", "WSRC", "WOS"):
        return mask
    if pol in ("W1", "WO1"):
        return cur if once else v
    bit, act = pol[1], pol[2]
    sel = v if bit == "1" else ~v & mask
    return {"C": cur & ~sel & mask, "S": cur | sel, "T": cur ^ sel}[act]


def after_read(pol, cur, mask):
    if pol == "RC" or pol.endswith("RC") and pol != "RC":
        return 0
    if pol == "RS" or pol.endswith("RS") and pol != "RS":
        return mask
    return cur


def restricted(pol, rights):
    """Effective access policy through a map with the given rights (NOACCESS: none)."""
    if rights == "RW":
        return pol
    if rights == "RO":
        if pol in WRITE_ONLY:
            return "NOACCESS"
        if pol.endswith("RC") or pol == "RC":
            return "RC"
        if pol.endswith("RS") or pol == "RS":
            return "RS"
        return "RO"
    return "WO" if pol in ("RW", "WO") else "NOACCESS"


class FieldState:
    """Reference model of one register field (mirror side)."""

    def __init__(self, spec):
        self.spec, self.pol, self.n, self.lsb = spec, spec["pol"], spec["n"], spec["lsb"]
        self.mask = (1 << self.n) - 1
        self.mir = self.des = 0
        self.once = False
        self.resets = {}
        if spec.get("reset") is not None:
            self.resets["HARD"] = spec["reset"] & self.mask

    def reset(self, kind="HARD"):
        if kind in self.resets:
            self.mir = self.des = self.resets[kind]
            if kind == "HARD":
                self.once = False

    def set(self, v):
        if self.pol in ("WRC", "WRS", "RW", "WO"):
            self.des = v
        elif self.pol in ("RO", "RC", "RS"):
            pass
        else:
            self.des = written(self.pol, self.des, v, self.mask, self.once)

    def predict(self, kind, v, front=True, rights="RW"):
        pol = restricted(self.pol, rights)
        if kind == "write":
            if front:
                v = self.mir if pol == "NOACCESS" else written(pol, self.mir, v, self.mask, self.once)
            self.once = True
        elif kind == "read" and front:
            if pol in WRITE_ONLY or pol == "NOACCESS":
                return
            v = after_read(pol, v, self.mask)
        self.mir = self.des = v


def gen_fields(g, n_bits, pols=POLICIES, dense=False, maxf=6):
    """Non-overlapping fields inside n_bits."""
    out, pos = [], 0
    while pos < n_bits and len(out) < maxf:
        if not dense and g.b(1, 3):
            pos += g.i(1, 5)
        if pos >= n_bits:
            break
        n = min(g.pick([1, 1, 2, 3, 4, 8, 8, 12, 16, 32]), n_bits - pos)
        if dense and len(out) == maxf - 1:
            n = n_bits - pos
        out.append({"name": "f%d" % len(out), "lsb": pos, "n": n, "pol": g.pick(pols), "vol": 0, "reset": g.bits(n)})
        pos += n
    return out or [{"name": "f0", "lsb": 0, "n": n_bits, "pol": g.pick(pols), "vol": 0, "reset": g.bits(n_bits)}]


def make_reg(name, n_bits, fields, base=None):
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE
    r = (base or UVMReg)(name, n_bits, UVM_NO_COVERAGE)
    r.fl = {}
    for f in fields:
        x = UVMRegField(f["name"])
        x.configure(r, f["n"], f["lsb"], f["pol"], f["vol"], f["reset"] or 0, f["reset"] is not None, 0, f.get("ind", 0))
        r.fl[f["name"]] = x
    return r


class DutReg:
    """The hardware side of a register: policies applied to bus accesses."""

    def __init__(self, fields, n_bits):
        self.fields = [dict(f, mask=(1 << f["n"]) - 1) for f in fields]
        self.n_bits = n_bits
        self.v = {f["name"]: (f["reset"] or 0) for f in fields}
        self.once = {f["name"]: False for f in fields}
        self.junk = 0

    def write(self, data, rights="RW"):
        for f in self.fields:
            n, pol = f["name"], restricted(f["pol"], rights)
            x = data >> f["lsb"] & f["mask"]
            if pol != "NOACCESS":
                self.v[n] = written(pol, self.v[n], x, f["mask"], self.once[n])
            self.once[n] = True

    def read(self, rights="RW"):
        out = 0
        for f in self.fields:
            n, pol = f["name"], restricted(f["pol"], rights)
            if pol in WRITE_ONLY or pol == "NOACCESS":
                out |= (self.junk & f["mask"]) << f["lsb"]     # undefined
                continue
            out |= self.v[n] << f["lsb"]
            self.v[n] = after_read(pol, self.v[n], f["mask"])
        return out


class MapModel:
    """Reference model of address translation."""

    def __init__(self, w, endian, ba, parent=None, base=0):
        self.w, self.endian, self.ba, self.parent = w, endian, ba, parent
        self.base, self.off, self.cursor = base, None, 0
        self.step = w if ba else 1
        self.k = 1 if parent is None else (w - 1) // parent.w + 1
        self.minw = w if parent is None else min(w, parent.minw)

    def root(self):
        return self if self.parent is None else self.parent.root()

    def phys(self, off, nb):
        n = max(1, -(-nb // self.w))
        idx = [0] * n if self.endian >= 2 else list(range(n))
        if self.endian == 1:
            idx.reverse()
        loc = [off + i * self.step for i in idx]
        if self.parent is None:
            return [a + self.base for a in loc]
        return [x for a in loc for x in self.parent.phys(self.off + a * self.k, self.w)]

    def alloc(self, size, gap):
        """size local address units"""
        at = self.cursor + gap * self.step
        self.cursor = at + size
        return at


def bus_env(top, dut, responses=False, delays=(0,), prefix=""):
    """Sequencer, driver and adapter of a simple bus; dut(kind, addr, data, byte_en) -> (data, ok).

    Returns (sequencer, adapter, log); call in build_phase of `top`, and the result's
    connect() in connect_phase."""
    from cocotb.triggers import Timer
    from uvm import UVMSequenceItem, UVMSequencer, UVMDriver
    from uvm.macros import uvm_object_utils
    from uvm.reg.uvm_reg_adapter import UVMRegAdapter
    from uvm.reg.uvm_reg_model import UVM_READ, UVM_WRITE, UVM_IS_OK, UVM_NOT_OK

    class BusItem(UVMSequenceItem):
        def __init__(self, name="bus"):
            super().__init__(name)
            self.kind = self.addr = self.data = self.be = self.nb = None
            self.ok = True
    BusItem.__name__ = prefix + "BusItem"
    uvm_object_utils(BusItem)

    class Adapter(UVMRegAdapter):
        def reg2bus(self, rw):
            b = BusItem("bus")
            b.kind = {UVM_READ: "read", UVM_WRITE: "write"}[rw.kind]
            b.addr, b.data, b.be, b.nb = rw.addr, rw.data, rw.byte_en, rw.n_bits
            return b

        def bus2reg(self, b, rw):
            check(isinstance(b, BusItem), "bus2reg got %r", b)
            rw.kind = UVM_READ if b.kind == "read" else UVM_WRITE
            rw.addr, rw.data, rw.byte_en = b.addr, b.data, b.be
            rw.status = UVM_IS_OK if b.ok else UVM_NOT_OK
    Adapter.__name__ = prefix + "Adapter"
    uvm_object_utils(Adapter)
    log = []

    class Drv(UVMDriver):
        async def run_phase(self, phase):
            k = 0
            while True:
                t = []
                await self.seq_item_port.get_next_item(t)
                b = t[0]
                d = delays[k % len(delays)]
                k += 1
                if d:
                    await Timer(d * 1000, "ps")
                data, b.ok = dut(b.kind, b.addr, b.data, b.be)
                out = b
                if b.kind == "read":
                    if responses:
                        out = BusItem("rsp")
                        out.kind, out.addr, out.be = b.kind, b.addr, b.be
                        out.ok = b.ok
                    out.data = data
                elif responses:
                    out = BusItem("rsp")
                    out.kind, out.addr, out.be, out.data, out.ok = b.kind, b.addr, b.be, b.data, b.ok
                log.append((b.kind, b.addr, b.data if b.kind == "write" else data, b.be, b.nb))
                if responses:
                    out.set_id_info(b)
                    b.ok = None
                    self.seq_item_port.item_done(out)
                else:
                    self.seq_item_port.item_done()
    sqr = UVMSequencer(prefix + "sqr", top)
    drv = Drv(prefix + "drv", top)
    ad = Adapter(prefix + "adapter")
    ad.provides_responses = responses

    def connect():
        drv.seq_item_port.connect(sqr.seq_item_export)
    return sqr, ad, log, connect
