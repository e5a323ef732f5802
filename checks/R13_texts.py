import re

from util import *
from regs import *

ID = "R13"
META = {
    "title": "Texts of registers, fields and accesses show their state and place",
    "statement": "For every tree of blocks, maps, registers and fields and every history of values and accesses, convert2string of a field shows its access policy, register, bit range and desired value in hexadecimal, and its mirrored value exactly when that differs. The text of a register names it, its size in bytes and its value, then every map on the way from each map that contains it to the root with its width and offset (or that it is unmapped), then the texts of its fields in order, and says that a read or write is in progress exactly while one is. The text of a register item shows kind, element, value, memory offset and map, that of a reserved memory region its first and last offset.",
    "over": ["inputs", "histories"],
    "quant": "all block and map trees, field layouts and policies, sequences of set, predict, reset and bus accesses, register items and memory regions",
    "why": "No test prints a register model; these texts are what a user debugs with and a wrong one misleads without failing anything.",
    "files": ["src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_reg_field.py", "src/uvm/reg/uvm_reg_item.py", "src/uvm/reg/uvm_mem_mam.py"],
    "mech": [["UVMReg.convert2string", "src/uvm/reg/uvm_reg.py"], ["UVMRegField.convert2string", "src/uvm/reg/uvm_reg_field.py"], ["UVMRegItem.convert2string", "src/uvm/reg/uvm_reg_item.py"],
             ["UVMMemRegion.convert2string", "src/uvm/reg/uvm_mem_mam.py"]],
    "note": "Generated register models on a simulated bus; the texts are taken apart and compared with a model, also from within the bus driver.",
}
RULE = "a text was taken of a field whose desired value differs from the mirrored one, or of a register two or more maps below a root"
N = (120, 12000)
ASSUMPTIONS = ["layout of the texts (spacing, digits' case, leading zeros) is free", "fields are not accessed individually"]


def strategy():
    def fn(g):
        n = g.pick([8, 8, 16, 32])
        blocks = []
        for b in range(g.i(1, 4)):
            blocks.append({"parent": g.i(0, b - 1) if b else -1, "gap": g.pick([0, 0x10, 0x100, 0x1234]),
                           "regs": [{"n": n, "fields": gen_fields(g, n, maxf=4), "in": g.pick([3, 3, 1, 2, 0])} for _ in range(g.i(0 if b else 1, 2))]})
        ops = [[g.pick(["set", "set", "predict", "reset", "write", "write", "read", "read", "update"]), g.i(0, 15), g.bits(32), g.i(0, 3)] for _ in range(g.i(1, 10))]
        return {"n": n, "base": [g.pick([0, 0x1000]), g.pick([0, 0xABC0])], "two": g.b(), "blocks": blocks, "ops": ops, "rsp": g.b(1, 4), "w": g.pick([1, 2, 4]),
                "items": [{"k": g.i(0, 3), "el": g.i(0, 2), "v": g.some(1, 3, lambda: g.bits(32)), "off": g.i(0, 99), "map": g.b(), "none": g.b(1, 6)} for _ in range(g.i(0, 3))],
                "mam": g.some(0, 4, lambda: [g.i(0, 70), g.i(1, 8)])}
    return gen(fn, 300)


def run(case):
    from uvm import UVMComponent
    from uvm.macros import uvm_component_utils
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_mem_mam import UVMMemMam, UVMMemMamCfg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_item import UVMRegItem
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_REG, UVM_FIELD, UVM_MEM, UVM_READ, UVM_WRITE, UVM_BURST_READ, UVM_BURST_WRITE
    rep = Reports()
    st = {"texts": 0, "differs": 0, "deep": 0, "busy": 0}
    blks, regs = [], []
    roots = 2 if case["two"] else 1
    box = {"cur": None}
    nb = case["n"] // 8
    w = min(case["w"], nb)

    class Map:
        def __init__(self, u, parent, base):
            self.u, self.parent, self.base, self.off, self.cursor = u, parent, base, None, 0

    def number(s):
        return int(s.strip().replace("'h", "").replace("0x", ""), 16)

    def field(r, f, text):
        """The text of one field"""
        des, mir = f.get(), f.get_mirrored_value()
        m = re.search(r"(\w+) +%s\[(\d+):(\d+)\] *= *(\d+)'h *([0-9A-Fa-f]+)(?: *\(Mirror: *(\d+)'h *([0-9A-Fa-f]+) *\))?$" % r["name"], text.strip())
        check(m, "text of field %s.%s (desired 0x%x, mirrored 0x%x): %r", r["name"], f.get_name(), des, mir, text)
        a, msb, lsb, n, v, n2, v2 = m.groups()
        eq((a, int(msb), int(lsb), int(n), int(v, 16)), (f.get_access(), f.get_lsb_pos() + f.get_n_bits() - 1, f.get_lsb_pos(), f.get_n_bits(), des),
           "access, bits, width and value in the text %r" % text)
        eq(None if v2 is None else (int(n2), int(v2, 16)), None if des == mir else (f.get_n_bits(), mir), "mirrored value in the text %r" % text)
        st["differs"] += des != mir

    def look(r, busy=""):
        x = r["reg"]
        text = x.convert2string()
        st["texts"] += 1
        fs = []
        x.get_fields(fs)
        for f in fs:
            field(r, f, f.convert2string())
        lines = [t for t in text.split("\n") if t.strip()]
        m = re.match(r"Register ([\w.]+) -- (\d+) bytes, mirror value: *'?h?([0-9A-Fa-f]+)(.*)$", lines[0])
        check(m, "first line of the text of %s: %r", x.get_full_name(), lines[0])
        eq((m.group(1), int(m.group(2))), (x.get_full_name(), nb), "name and bytes in %r" % lines[0])
        if x.get() == x.get_mirrored_value():
            eq(int(m.group(3), 16), x.get(), "value in %r" % lines[0])
        eq("unmapped" in lines[0], not r["maps"], "unmapped in %r" % lines[0])
        want = []
        for mp in r["maps"]:
            n = 0
            while mp is not None:
                want.append((mp.u.get_full_name(), w, mp.base if mp.parent is None else mp.off))
                mp = mp.parent
                n += 1
            st["deep"] += n > 2
        got = [(a, int(b), number(c)) for a, b, c in re.findall(r"Mapped in '([^']*)' -- (\d+) bytes, .*, offset *('?h? *[0-9A-Fa-f]+)", text)]
        eq(got, want, "maps in the text of %s" % x.get_full_name())
        at = 1 + len(want)
        for f, t in zip(fs, lines[at:]):
            field(r, f, t)
        rest = lines[at + len(fs):]
        eq(len(lines[at:]) - len(rest), len(fs), "fields in the text %r" % text)
        eq(["currently executing %s method" % k for k in ("read", "write") if any("executing %s method" % k in t for t in rest)], ["currently executing %s method" % busy] if busy else [],
           "access in progress in the text of %s: %r" % (x.get_full_name(), rest))
        st["busy"] += bool(busy)

    def dut(kind, addr, data, be):
        r, k = box["cur"]
        eq(kind, k, "kind of the bus access")
        for x in regs:
            look(x, kind if x is r else "")
        return (data if kind == "write" else 0x5A5A5A5A & ((1 << 8 * w) - 1)), True

    class Top(UVMComponent):
        def build_phase(self, phase):
            for i, b in enumerate(case["blocks"]):
                p = blks[b["parent"]] if i else None
                blk = UVMRegBlock("b%d" % i, UVM_NO_COVERAGE)
                blk.configure(p["blk"] if p else None)
                maps = []
                for k in range(roots):
                    maps.append(Map(blk.create_map("m%d" % k, case["base"][k] if p is None else 0x33, w, UVM_LITTLE_ENDIAN), p and p["maps"][k], case["base"][k]))
                rec = {"blk": blk, "maps": maps}
                for j, spec in enumerate(b["regs"]):
                    name = "r%d_%d" % (i, j)
                    x = make_reg(name, spec["n"], spec["fields"])
                    x.configure(blk)
                    r = {"reg": x, "name": name, "maps": []}
                    for k in range(roots):
                        if spec["in"] >> k & 1:
                            at = maps[k].cursor
                            maps[k].cursor += nb
                            maps[k].u.add_reg(x, at, "RW")
                            r["maps"].append(maps[k])
                    regs.append(r)
                blks.append(rec)
            for b in reversed(list(zip(case["blocks"], blks))):
                spec, rec = b
                if spec["parent"] >= 0:
                    up = blks[spec["parent"]]
                    for k in range(roots):
                        pm = up["maps"][k]
                        rec["maps"][k].off = pm.cursor + spec["gap"] * 4
                        pm.cursor = rec["maps"][k].off + rec["maps"][k].cursor + 4
                        pm.u.add_submap(rec["maps"][k].u, rec["maps"][k].off)
            box["mem"] = UVMMem("mem", 80, case["n"])
            box["mem"].configure(blks[0]["blk"])
            for k in range(roots):
                blks[0]["maps"][k].u.add_mem(box["mem"], 0x100000, "RW")
            blks[0]["blk"].lock_model()
            blks[0]["blk"].reset()
            self.envs = []
            for k in range(roots):
                self.envs.append(bus_env(self, dut, case["rsp"], prefix="e%d" % k))

        def connect_phase(self, phase):
            for k, (sqr, ad, _, connect) in enumerate(self.envs):
                connect()
                blks[0]["maps"][k].u.set_sequencer(sqr, ad)

        async def run_phase(self, phase):
            phase.raise_objection(self)
            for op, i, v, k in case["ops"]:
                r = regs[i % len(regs)]
                x = r["reg"]
                v &= (1 << case["n"]) - 1
                if op == "set":
                    x.set(v)
                elif op == "predict":
                    x.predict(v)
                elif op == "reset":
                    x.reset()
                elif r["maps"]:
                    mp = r["maps"][k % len(r["maps"])].u
                    box["cur"] = (r, "read" if op == "read" else "write")
                    if op == "write":
                        await x.write([], v, _map=mp)
                    elif op == "read":
                        await x.read([], [], _map=mp)
                    else:
                        await x.update([], _map=mp)
                for y in regs:
                    look(y)
            phase.drop_objection(self)
    uvm_component_utils(Top)
    uvm_run(Top)
    # register items
    KIND = [UVM_READ, UVM_WRITE, UVM_BURST_READ, UVM_BURST_WRITE]
    for it in case["items"]:
        rw = UVMRegItem("rw")
        r = regs[it["off"] % len(regs)]
        fs = []
        r["reg"].get_fields(fs)
        rw.element_kind = [UVM_REG, UVM_FIELD, UVM_MEM][it["el"]]
        rw.element = None if it["none"] else [r["reg"], fs[0], box["mem"]][it["el"]]
        rw.kind, rw.value, rw.offset = KIND[it["k"]], list(it["v"]), it["off"]
        rw.map = blks[0]["maps"][0].u if it["map"] else None
        text = rw.convert2string()
        got = dict(t.split("=", 1) for t in text.split(" ") if "=" in t)
        st["texts"] += 1
        eq([got.get("kind"), got.get("ele_kind"), got.get("ele_name"), got.get("map")],
           [["UVM_READ", "UVM_WRITE", "UVM_BURST_READ", "UVM_BURST_WRITE"][it["k"]], ["UVM_REG", "UVM_FIELD", "UVM_MEM"][it["el"]],
            "null" if rw.element is None else rw.element.get_full_name(), rw.map.get_full_name() if rw.map else "null"], "kind, element and map in the text %r" % text)
        vals = [number(t) for t in got["value"].strip("'{}").split(",")]
        check(vals in ([it["v"][0]], it["v"]), "values %r in the text %r", it["v"], text)
        eq(None if "offset" not in got else number(got["offset"]), it["off"] if it["el"] == 2 else None, "offset in the text %r" % text)
    # regions
    if case["mam"]:
        cfg = UVMMemMamCfg()
        cfg.n_bytes, cfg.start_offset, cfg.end_offset = nb, 0, 79
        mam = UVMMemMam("mam", cfg, box["mem"])
        n0 = len(rep.errors())
        for s, n in case["mam"]:
            reg = mam.reserve_region(s, n * nb)
            if reg is not None:
                nums = [number(t) for t in re.findall(r"'h *[0-9A-Fa-f]+", reg.convert2string())]
                eq(nums, [s, s + n - 1], "text %r of the region" % reg.convert2string())
        del rep.msgs[n0:]
    eq([m for m in rep.errors() if m[1] != "RegModel"], [], "errors")
    return {"nontrivial": bool(st["differs"] or st["deep"]), **st}
