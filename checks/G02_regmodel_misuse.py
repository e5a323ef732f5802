from util import *
from regs import *

ID = "G02"
META = {
    "title": "Illegal register-model construction is reported and changes nothing",
    "statement": "While a register model is being built and after it is locked, every illegal call is answered with exactly the documented report (severity, id, the objects' names) and the documented fallback result, and leaves the model as it was: adding something twice, to another block's map or to a locked model, a submap with a second parent or outside the block's hierarchy, null handles, zero-sized fields, registers and memories, unknown access policies, moves and address queries through maps that do not contain the register, and memory reservations that are empty, out of range or overlapping. Afterwards all contents, offsets, addresses and look-ups are those of the same model built without the illegal calls.",
    "over": ["inputs", "histories"],
    "quant": "all block hierarchies, maps, registers, memories and all orders of legal and illegal construction steps, look-ups and reservations",
    "why": "Tests build only legal models; an illegal call that is accepted, half applied or reported for the wrong object shows only in a later access.",
    "files": ["src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg_block.py", "src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_mem_mam.py", "src/uvm/reg/uvm_reg_field.py"],
    "mech": [["UVMRegMap.add_reg / add_mem / add_submap / m_set_reg_offset / get_submap_offset / set_submap_offset / get_reg_by_offset / set_sequencer", "src/uvm/reg/uvm_reg_map.py"], ["UVMRegBlock.add_reg / add_mem / add_block / add_map / get_map_by_name / set_default_map", "src/uvm/reg/uvm_reg_block.py"],
             ["UVMReg.configure / add_field / set_offset / get_offset / get_addresses / get_local_map", "src/uvm/reg/uvm_reg.py"], ["UVMMem.configure / get_local_map / get_access", "src/uvm/reg/uvm_mem.py"], ["UVMMemMam.reserve_region", "src/uvm/reg/uvm_mem_mam.py"]],
    "note": "Random models with illegal calls mixed into every stage, judged against a model that ignores them.",
}
RULE = "at least three illegal calls of different kinds were made"
N = (420, 40000)
ASSUMPTIONS = []
BUILD = ["reg0", "mem0", "field0", "memacc", "badpol", "noblk", "overlap", "addreg2", "addregother", "addmem2", "addmemother", "subnone",
         "sub2", "subforeign", "subnoblk", "narrow", "blk2", "map2", "cfgreg2", "cfgmem2", "deffor", "seqnone", "subofs", "subofsnone", "unlocked", "setofsfor"]
LOCKED = ["lreg", "lmem", "lblk", "lmap", "lfield", "ambig", "setofsfor", "ofsfor", "memfor", "nomap", "unmapped", "setacc", "noreg", "nofield", "nomapname",
          "mam0", "mampast", "mamover", "mamok", "subofs", "subofsnone", "addreg2", "clash", "seqnone"]


def strategy():
    def fn(g):
        blks = []
        for i in range(g.i(1, 3)):
            n = g.i(1, 3)
            blks.append({"maps": g.i(1, 2), "regs": [{"maps": g.pick([[0], [0], [1], [0, 1], []]), "un": g.b(1, 6)} for _ in range(n)],
                         "mem": g.pick([None, {"maps": g.pick([[0], [1], [0, 1], []]), "size": g.pick([4, 8, 16]), "acc": g.pick(["RW", "RO"])}]),
                         "rev": g.b()})
        steps = [[g.pick(BUILD), g.i(0, 7), g.i(0, 7), g.i(0, 20)] for _ in range(g.i(1, 9))]
        post = [[g.pick(LOCKED), g.i(0, 7), g.i(0, 7), g.i(0, 20)] for _ in range(g.i(1, 12))]
        return {"blks": blks, "steps": steps, "post": post}
    return gen(fn, 300)


def run(case):
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_map import UVMRegMap
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_NO_HIER
    rep = Reports()
    kinds = set()
    n_calls = [0]
    W, E = 1, 2

    def expect(what, exp):
        got = [m for m in rep.msgs if m[0] >= 1]
        rep.msgs[:] = []
        ok = len(got) == len(exp) and all(a[0] == b[0] and a[1] == b[1] and all(s.lower() in a[2].lower() for s in b[2]) for a, b in zip(got, exp))
        check(ok, "%s: reports are %r, expected %r", what, got, exp)

    # ------------------------------------------------------------ the legal part
    root = UVMRegBlock("root", UVM_NO_COVERAGE)
    other = UVMRegBlock("other", UVM_NO_COVERAGE)         # (an unrelated model)
    omap = other.create_map("omap", 0, 4, UVM_LITTLE_ENDIAN)
    oreg = make_reg("oreg", 32, [{"name": "f", "lsb": 0, "n": 32, "pol": "RW", "reset": 0, "vol": 0, "soft": None}])
    oreg.configure(other)
    omem = UVMMem("omem", 4, 32)
    omem.configure(other)
    FLD = [{"name": "f", "lsb": 0, "n": 8, "pol": "RW", "reset": 0, "vol": 0, "soft": None}, {"name": "g", "lsb": 8, "n": 8, "pol": "RO", "reset": 5, "vol": 0, "soft": None}]
    blocks, regs, mems, maps, order = [], [], [], [], []
    m = {}            # reference: id of reg/mem -> {map index: (offset, unmapped)}
    base = {}         # id(map) -> base of the map in its root map
    for i, b in enumerate(case["blks"]):
        blk = root if i == 0 else UVMRegBlock("b%d" % i, UVM_NO_COVERAGE)
        if i:
            blk.configure(root)
        bm = [blk.create_map("m%d" % k, 0, 4, UVM_LITTLE_ENDIAN) for k in range(b["maps"])]
        sub = {}
        for k in range(len(bm) if i else 0):
            sub[bm[k]] = blocks[0]["maps"][k % len(blocks[0]["maps"])]
            sub[bm[k]].add_submap(bm[k], 0x1000 * i + 0x8000 * k)
        d = {"blk": blk, "maps": bm, "regs": [], "mems": [], "i": i, "sub": sub}
        for k, mp in enumerate(bm):
            base[mp] = 0x1000 * i + 0x8000 * k if i else 0
        blocks.append(d)
        maps += bm
        for j, r in enumerate(b["regs"]):
            reg = make_reg("r%d%d" % (i, j), 32, FLD)
            reg.configure(blk)
            ent = {"o": reg, "blk": d, "at": {}}
            for k in sorted(set(k % b["maps"] for k in r["maps"]), reverse=b["rev"]):
                un = int(r["un"] and not ent["at"])
                bm[k].add_reg(reg, 4 * j + 16 * k, "RW", un)
                ent["at"][bm[k]] = (-1 if un else 4 * j + 16 * k, un)
            d["regs"].append(ent)
            regs.append(ent)
        if b["mem"]:
            mem = UVMMem("x%d" % i, b["mem"]["size"], 32, b["mem"]["acc"])
            mem.configure(blk)
            ent = {"o": mem, "blk": d, "at": {}, "size": b["mem"]["size"], "acc": b["mem"]["acc"], "res": []}
            for k in sorted(set(k % b["maps"] for k in b["mem"]["maps"])):
                bm[k].add_mem(mem, 0x400, "RW")
                ent["at"][bm[k]] = (0x400, 0)
            d["mems"].append(ent)
            mems.append(ent)
    expect("building a legal model", [])

    def foreign(d, a):
        """a map that belongs to another block and is not above any of d's maps"""
        c = [mp for x in blocks if x is not d and x is not blocks[0] for mp in x["maps"]] + [omap]
        return c[a % len(c)]

    def illegal(kind, a, b, c, locked):
        d = blocks[a % len(blocks)]
        blk = d["blk"]
        mp = d["maps"][b % len(d["maps"])]
        rg = regs[a % len(regs)]
        me = mems[a % len(mems)] if mems else None
        fn = blk.get_full_name()
        if kind == "reg0":
            r = UVMReg("z", 0, UVM_NO_COVERAGE)
            expect(kind, [(E, "RegModel", ["\"z\"", "0 bits"])])
            eq(r.get_n_bits(), 1, "size of a register of 0 bits")
        elif kind == "mem0":
            r = UVMMem("zm", 4, 0)
            expect(kind, [(E, "RegModel", ["'zm'", "0 bits"])])
            eq(r.get_n_bits(), 1, "size of a memory of 0 bits")
        elif kind in ("field0", "badpol"):
            r = UVMReg("zr", 8, UVM_NO_COVERAGE)
            f = UVMRegField("zf")
            f.configure(r, 0 if kind == "field0" else 3, 2, "RW" if kind == "field0" else "RWX", 0, 0, 1, 1, 0)
            expect(kind, [(E, "RegModel", ["zr.zf", "0 bits" if kind == "field0" else "RWX"])])
            eq((f.get_n_bits(), f.get_lsb_pos(), f.set_access("RO")), (1 if kind == "field0" else 3, 2, "RW"), "field configured illegally (%s)" % kind)
        elif kind == "memacc":
            r = UVMMem("zm", 4, 8, "WO")
            t = UVMRegBlock("tmp%d" % n_calls[0], UVM_NO_COVERAGE)
            r.configure(t)
            expect(kind, [(E, "RegModel", ["zm", "RW or RO"])])
            t.create_map("m", 0, 4, UVM_LITTLE_ENDIAN).add_mem(r, 0)
            eq(r.get_access(), "RW", "access of a memory configured as WO")
        elif kind == "noblk":
            r = UVMReg("zr", 8, UVM_NO_COVERAGE)
            r.configure(None)
            expect(kind, [(E, "UVM/REG/CFG/NOBLK", ["\"zr\""])])
            check(r.get_parent() is None, "a register configured without a block has the parent %r", r.get_parent())
        elif kind == "overlap":
            r = UVMReg("zr", 16, UVM_NO_COVERAGE)
            spec = [["fa", 0, 8], ["fb", 8, 8]]
            lsb, n = c % 16, 1 + b % 4
            lsb = min(lsb, 16 - n)
            for nm, l, w in spec:
                UVMRegField(nm).configure(r, w, l, "RW", 0, 0, 1, 1, 0)
            expect("two adjacent fields", [])
            UVMRegField("fc").configure(r, n, lsb, "RW", 0, 0, 1, 1, 0)
            exp = [(E, "RegModel", ["more bits (%d)" % (16 + n), "\"zr\"", "(16)"])]
            # it is placed before the first field with a higher LSB and checked against its two neighbours
            if lsb < 8:
                exp.append((E, "RegModel", ["fa", "fc", "overlap"]))
                if lsb + n > 8:
                    exp.append((E, "RegModel", ["fc", "fb", "overlap"]))
            else:
                exp.append((E, "RegModel", ["fb", "fc", "overlap"]))
            expect(kind, exp)
        elif kind == "addreg2":
            if not rg["at"]:
                return
            mp = list(rg["at"])[b % len(rg["at"])]
            mp.add_reg(rg["o"], 0x200 + 4 * c)
            expect(kind, [(E, "RegModel", ["'%s'" % rg["o"].get_name(), "already been added", "'%s'" % mp.get_name()])])
        elif kind == "addregother":
            mp = foreign(rg["blk"], b)
            mp.add_reg(rg["o"], 0x200 + 4 * c)
            expect(kind, [(E, "RegModel", ["'%s'" % rg["o"].get_full_name(), "'%s'" % mp.get_full_name(), "not in the same block"])])
        elif kind == "addmem2":
            if not me or not me["at"]:
                return
            mp = list(me["at"])[b % len(me["at"])]
            mp.add_mem(me["o"], 0x800)
            expect(kind, [(E, "RegModel", ["'%s'" % me["o"].get_name(), "already been added", "'%s'" % mp.get_name()])])
        elif kind == "addmemother":
            if not me:
                return
            mp = foreign(me["blk"], b)
            mp.add_mem(me["o"], 0x800)
            expect(kind, [(E, "RegModel", ["'%s'" % me["o"].get_full_name(), "'%s'" % mp.get_full_name(), "not in the same block"])])
        elif kind == "subnone":
            mp.add_submap(None, 4 * c)
            expect(kind, [(E, "RegModel", ["None map", "'%s'" % mp.get_full_name()])])
        elif kind == "sub2":
            if len(blocks) < 2:
                return
            ch = blocks[1 + a % (len(blocks) - 1)]["maps"][0]
            pa = blocks[0]["maps"][b % len(blocks[0]["maps"])]
            pa.add_submap(ch, 0x8000)
            expect(kind, [(E, "RegModel", ["'%s'" % ch.get_full_name(), "already a child", "'%s'" % blocks[0]["maps"][0].get_full_name(), "'%s'" % pa.get_full_name()])])
        elif kind == "subforeign":
            mp.add_submap(omap, 0x8000)
            expect(kind, [(E, "RegModel", ["'%s'" % omap.get_full_name(), "'%s'" % mp.get_full_name(), "descend"])])
        elif kind == "subnoblk":
            mp.add_submap(UVMRegMap("lone"), 0x8000)
            expect(kind, [(E, "RegModel", ["lone", "parent block"])])
        elif kind == "narrow":
            # (reported, but added; made on an own small model)
            p = UVMRegBlock("np%d" % n_calls[0], UVM_NO_COVERAGE)
            pm = p.create_map("pm", 0, 4, UVM_LITTLE_ENDIAN)
            q = UVMRegBlock("q", UVM_NO_COVERAGE)
            q.configure(p)
            qm = q.create_map("qm", 0, 2, UVM_LITTLE_ENDIAN)
            pm.add_submap(qm, 0x40)
            expect(kind, [(W, "RegModel", ["2-byte", qm.get_full_name(), "4-byte", pm.get_full_name()])])
            eq(pm.get_submap_offset(qm), 0x40, "offset of a narrower submap")
        elif kind == "blk2":
            if len(blocks) < 2:
                return
            ch = blocks[1 + a % (len(blocks) - 1)]["blk"]
            root.add_block(ch)
            expect(kind, [(E, "RegModel", ["'%s'" % ch.get_name(), "already been registered", "'root'"])])
        elif kind == "map2":
            blk.add_map(mp)
            expect(kind, [(E, "RegModel", ["'%s'" % mp.get_name(), "already exists", "'%s'" % fn])])
        elif kind == "cfgreg2":
            rg["blk"]["blk"].add_reg(rg["o"])
            expect(kind, [(E, "RegModel", ["'%s'" % rg["o"].get_name(), "already been registered", "'%s'" % rg["blk"]["blk"].get_name()])])
        elif kind == "cfgmem2":
            if not me:
                return
            me["blk"]["blk"].add_mem(me["o"])
            expect(kind, [(E, "RegModel", ["'%s'" % me["o"].get_name(), "already been registered", "'%s'" % me["blk"]["blk"].get_name()])])
        elif kind == "deffor":
            t = UVMRegBlock("def%d" % n_calls[0], UVM_NO_COVERAGE)
            t.create_map("dm", 0, 4, UVM_LITTLE_ENDIAN)
            t.set_default_map(omap)
            expect(kind, [(W, "RegModel", ["'%s'" % omap.get_full_name(), "does not exist in block"])])
        elif kind == "seqnone":
            mp.set_sequencer(None)
            expect(kind, [(E, "REG_None_SQR", [])])
            check(mp.get_sequencer() is None, "sequencer set to %r", mp.get_sequencer())
        elif kind == "subofs":
            eq(mp.get_submap_offset(omap), -1, "offset of a map that is not a submap")
            expect(kind, [(E, "RegModel", ["'%s'" % omap.get_full_name(), "not a submap", "'%s'" % mp.get_full_name()])])
        elif kind == "subofsnone":
            eq(mp.get_submap_offset(None), -1, "offset of no submap")
            expect(kind, [(E, "REG/None", [])])
            mp.set_submap_offset(None, 4 * c)
            expect(kind, [(E, "REG/None", [])])
        elif kind == "unlocked":
            check(mp.get_reg_by_offset(4 * c) is None, "get_reg_by_offset finds a register before the model is locked")
            expect(kind, [(E, "RegModel", [fn, "not locked"])])
        elif kind == "setofsfor":
            t = foreign(rg["blk"], b)
            if not rg["at"]:
                return
            rg["o"].set_offset(t, 0x300 + 4 * c)
            expect(kind, [(W, "RegModel", ["'%s'" % rg["o"].get_full_name(), "not contained", "'%s'" % t.get_full_name(), "set_offset()"])])
        elif kind == "lreg":
            r = make_reg("late%d" % n_calls[0], 32, FLD)
            r.configure(blk)
            expect(kind, [(E, "RegModel", ["Cannot add register", "locked"])])
        elif kind == "lmem":
            r = UVMMem("latem%d" % n_calls[0], 4, 32)
            r.configure(blk)
            expect(kind, [(E, "RegModel", ["Cannot add memory", "locked"])])
        elif kind == "lblk":
            blk.add_block(UVMRegBlock("lateb%d" % n_calls[0], UVM_NO_COVERAGE))
            expect(kind, [(E, "RegModel", ["Cannot add subblock", "locked"])])
        elif kind == "lmap":
            blk.add_map(UVMRegMap("latemap"))
            expect(kind, [(E, "RegModel", ["Cannot add map", "locked"])])
        elif kind == "lfield":
            UVMRegField("latef").configure(rg["o"], 4, 20, "RW", 0, 0, 1, 1, 0)
            expect(kind, [(E, "RegModel", ["Cannot add field", "locked"])])
        elif kind == "ambig":
            if len(rg["at"]) < 2:
                return
            rg["o"].set_offset(None, 0x300 + 4 * c)
            expect(kind, [(E, "RegModel", ["set_offset", "'%s'" % rg["o"].get_full_name(), "more than one"])])
        elif kind == "ofsfor":
            if not rg["at"]:
                return
            t = foreign(rg["blk"], b)
            o = rg["o"]
            exp = [(W, "RegModel", ["'%s'" % o.get_full_name(), "not contained", "'%s'" % t.get_full_name()])]
            eq(o.get_offset(t), -1, "offset in a map without the register")
            expect(kind, exp)
            o.get_address(t)
            expect(kind, exp)
            addr = []
            eq(o.get_addresses(t, addr), -1, "addresses in a map without the register")
            eq(addr, [], "addresses in a map without the register")
            expect(kind, exp)
            check(not o.is_in_map(t), "is_in_map of a map without the register")
        elif kind == "memfor":
            if not me:
                return
            t = foreign(me["blk"], b)
            check(me["o"].get_local_map(t) is None, "local map of a memory in a foreign map")
            expect(kind, [(W, "RegModel", ["'%s'" % me["o"].get_full_name(), "not contained", "'%s'" % t.get_full_name()])])
        elif kind == "nomap":
            if me and not me["at"]:
                check(me["o"].get_default_map() is None, "default map of a memory in no map")
                expect(kind, [(W, "RegModel", ["'%s'" % me["o"].get_full_name(), "not registered with any map"])])
            if not rg["at"]:
                eq(rg["o"].get_offset(), -1, "offset of a register in no map")
                expect(kind, [(W, "RegModel", ["'%s'" % rg["o"].get_full_name(), "not registered with any map"])])
        elif kind == "unmapped":
            for t, (o, un) in rg["at"].items():
                if un:
                    exp = [(W, "RegModel", ["'%s'" % rg["o"].get_name(), "unmapped", "'%s'" % t.get_full_name()])]
                    eq(rg["o"].get_offset(t), -1, "offset of an unmapped register")
                    expect(kind, exp)
                    addr = []
                    eq((rg["o"].get_addresses(t, addr), addr), (-1, []), "addresses of an unmapped register")
                    expect(kind, exp)
        elif kind == "setacc":
            f = rg["o"].get_field_by_name("fg"[b % 2])
            was = "RW" if b % 2 == 0 else "RO"
            eq(f.set_access("XX%d" % c), was, "set_access")
            expect(kind, [(E, "RegModel", ["'XX%d'" % c])])
            eq(f.set_access(was), was, "access after an illegal set_access")
        elif kind == "noreg":
            check(blk.get_reg_by_name("none%d" % c) is None, "get_reg_by_name")
            expect(kind, [(W, "RegModel", ["'none%d'" % c, "'%s'" % fn])])
        elif kind == "nofield":
            check(rg["o"].get_field_by_name("none%d" % c) is None, "get_field_by_name")
            expect(kind, [(W, "RegModel", ["'none%d'" % c, "'%s'" % rg["o"].get_name()])])
        elif kind == "nomapname":
            check(blk.get_map_by_name("none%d" % c) is None, "get_map_by_name")
            expect(kind, [(W, "RegModel", ["'none%d'" % c])])
        elif kind.startswith("mam"):
            if not me:
                return
            mam, res, size = me["o"].mam, me["res"], me["size"]
            start, n = c % size, 1 + b % 3
            if kind == "mam0":
                check(mam.reserve_region(start, 0) is None, "reserving 0 bytes")
                expect(kind, [(E, "RegModel", ["0 bytes"])])
            elif kind == "mampast":
                start = size - n + 1 + a % 3
                check(mam.reserve_region(start, 4 * n) is None, "reserving past the end")
                expect(kind, [(E, "RegModel", ["past end", "'h%x >" % (start + n - 1), "> 'h%x" % (size - 1)])])
            else:
                n = min(n, size - start)
                over = [x for x in res if x[0] <= start + n - 1 and start <= x[1]]
                r = mam.reserve_region(start, 4 * n - b % 4)
                if over:
                    check(r is None, "reserving [%d:%d] next to %r succeeds", start, start + n - 1, res)
                    got = [x for x in rep.msgs if x[0] >= 1]
                    rep.msgs[:] = []
                    check(len(got) == 1 and got[0][:2] == (E, "RegModel") and "overlaps" in got[0][2], "overlapping reservation: %r", got)
                else:
                    expect("a legal reservation", [])
                    eq((r.get_start_offset(), r.get_end_offset(), r.get_len()), (start, start + n - 1, n), "reserved region")
                    eq(r.get_n_bytes(), 4 * n, "bytes of a reserved region")
                    res.append((start, start + n - 1))
                    return
        elif kind == "clash":
            # moving a register on top of another one is reported; done on an own model
            p = UVMRegBlock("cl%d" % n_calls[0], UVM_NO_COVERAGE)
            pm = p.create_map("pm", 0, 4, UVM_LITTLE_ENDIAN)
            rr = [make_reg("c%d" % k, 32, FLD) for k in range(2)]
            for k, r in enumerate(rr):
                r.configure(p)
                pm.add_reg(r, 4 * k)
            cm = UVMMem("cm", 4, 32)
            cm.configure(p)
            pm.add_mem(cm, 0x40)
            p.lock_model()
            expect("building a small model", [])
            if b % 2:
                rr[1].set_offset(pm, 0)
                expect(kind, [(W, "RegModel", ["'%s'" % rr[1].get_full_name(), "same address", "'%s'" % rr[0].get_full_name(), pm.get_full_name()])])
                check(pm.get_reg_by_offset(0) is rr[0], "register found at a clashing address")
            else:
                rr[1].set_offset(pm, 0x40 + 4 * (c % 4))
                expect(kind, [(W, "RegModel", ["'%s'" % rr[1].get_full_name(), "overlaps", "'%s'" % cm.get_full_name(), pm.get_full_name()])])
            eq(rr[1].get_offset(pm), 0 if b % 2 else 0x40 + 4 * (c % 4), "offset of a moved register")
        kinds.add(kind)
        n_calls[0] += 1

    for s in case["steps"]:
        illegal(*s, locked=False)
    root.lock_model()
    other.lock_model()
    expect("locking the model", [])

    def snapshot(what):
        for d in blocks:
            blk = d["blk"]
            l = []
            blk.get_registers(l, UVM_NO_HIER)
            eq([x.get_name() for x in l], [x["o"].get_name() for x in d["regs"]], what + ": registers of " + blk.get_full_name())
            l = []
            blk.get_memories(l, UVM_NO_HIER)
            eq([x.get_name() for x in l], [x["o"].get_name() for x in d["mems"]], what + ": memories of " + blk.get_full_name())
            l = []
            blk.get_maps(l)
            eq(l, d["maps"], what + ": maps of " + blk.get_full_name())
            l = []
            blk.get_blocks(l, UVM_NO_HIER)
            eq(l, [x["blk"] for x in blocks[1:]] if blk is root else [], what + ": sub-blocks of " + blk.get_full_name())
            check(blk.get_default_map() is d["maps"][0], "%s: default map of %s", what, blk.get_full_name())
            for mp in d["maps"]:
                l = []
                mp.get_registers(l, UVM_NO_HIER)
                eq(sorted(x.get_name() for x in l), sorted(x["o"].get_name() for x in d["regs"] if mp in x["at"]), what + ": registers of map " + mp.get_full_name())
                l = []
                mp.get_submaps(l, UVM_NO_HIER)
                eq(l, [q for x in blocks for q in x["maps"] if x["sub"].get(q) is mp], what + ": submaps of " + mp.get_full_name())
                check(mp.get_parent_map() is d["sub"].get(mp), "%s: parent of map %s", what, mp.get_full_name())
            for q, pa in d["sub"].items():
                eq(pa.get_submap_offset(q), base[q], what + ": submap offset")
        for e in regs:
            o = e["o"]
            check(o.get_parent() is e["blk"]["blk"], "%s: parent of %s", what, o.get_full_name())
            eq([(f.get_name(), f.get_lsb_pos(), f.get_n_bits(), f.get_access() if e["at"] else "") for f in o.get_fields([])], [("f", 0, 8, "RW" if e["at"] else ""), ("g", 8, 8, "RO" if e["at"] else "")], what + ": fields of " + o.get_full_name())
            l = []
            o.get_maps(l)
            eq(sorted(x.get_full_name() for x in l), sorted(x.get_full_name() for x in e["at"]), what + ": maps of " + o.get_full_name())
            for mp, (ofs, un) in e["at"].items():
                if un:
                    continue
                eq((o.get_offset(mp), o.get_address(mp)), (ofs, base[mp] + ofs), what + ": offset and address of " + o.get_full_name())
                check(mp.get_root_map().get_reg_by_offset(base[mp] + ofs) is o, "%s: register at address %x", what, base[mp] + ofs)
        for e in mems:
            o = e["o"]
            eq((o.get_size(), o.get_n_bits(), o.get_access() if e["at"] else e["acc"]), (e["size"], 32, e["acc"]), what + ": memory " + o.get_full_name())
            for mp, (ofs, un) in e["at"].items():
                eq(mp.get_mem_map_info(o).offset, ofs, what + ": offset and address of " + o.get_full_name())
            eq(sorted((x.get_start_offset(), x.get_end_offset()) for x in o.mam.in_use), sorted(e["res"]), what + ": reserved regions")
        l = []
        omap.get_registers(l)
        l2 = []
        other.get_registers(l2)
        eq((l, l2), ([], [oreg]), what + ": contents of the unrelated model")
        expect(what, [])
    snapshot("after locking")
    for s in case["post"]:
        illegal(*s, locked=True)
        snapshot("after %r" % (s,))
    return {"nontrivial": len(kinds) >= 3, "calls": n_calls[0]}
