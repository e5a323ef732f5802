from util import *
from regs import *

ID = "R03"
META = {
    "title": "Register accesses hit exactly the bus addresses their map hierarchy gives",
    "statement": "For every tree of blocks and address maps (base addresses, submap offsets, bus widths, byte or word addressing, endianness, several root maps with their own buses) the addresses of a register are those of the address-translation rules: one per bus beat, ordered by the endianness of its map, scaled by every level above. write and read through any map in which the register is visible issue exactly these beats in order on the bus of that root map, least significant data first, and assemble or split the value; they stop at the first beat in error and report it. The root map finds the register by each of its addresses, also after registers and submaps are moved, unmapped or mapped again. Two registers may share an address silently only as a read-only/write-only pair, in which case each access goes to the right one and the wrong direction is refused; every other conflict of registers and memories is reported, naming both, and no others.",
    "over": ["inputs", "histories"],
    "quant": "all block and map trees up to depth 4, register sizes, offsets, widths, endiannesses and remapping histories",
    "why": "Tests use one or two levels with 4-byte little-endian maps; address arithmetic breaks in deep, mixed, multi-beat or remapped hierarchies.",
    "files": ["src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_reg_block.py", "src/uvm/reg/uvm_reg_cbs.py"],
    "mech": [["UVMRegMap.get_physical_addresses / Xinit_address_mapX", "src/uvm/reg/uvm_reg_map.py"], ["UVMRegMap.do_bus_write / do_bus_read", "src/uvm/reg/uvm_reg_map.py"], ["UVMRegMap.add_submap / set_submap_offset / m_set_reg_offset / get_reg_by_offset", "src/uvm/reg/uvm_reg_map.py"], ["UVMReg.get_addresses / get_local_map / set_offset", "src/uvm/reg/uvm_reg.py"]],
    "note": "Whole tests; an independent address model computes the beats, a bus recorder supplies random read data.",
}
RULE = "a register needing several beats, or below at least two submap levels, or remapped, was accessed"
N = (160, 12000)
ASSUMPTIONS = ["a submap is as wide as its parent map, or wider by a whole factor with word addressing", "registers below wider submaps are whole multiples of the submap's width",
               "beat order of UVM_BIG_FIFO is not prescribed", "address-sharing pairs are not moved"]


def strategy():
    def fn(g):
        if g.b(1, 5):
            return g.pick([overlap, overlap, conflict])(g)
        ba = g.b(2, 3)
        w0 = g.pick([4, 1, 2, 8])
        nroots = 2 if g.b(1, 4) else 1
        roots = [{"base": g.pick([0, 0x1000, 0x40, 7]), "w": w0, "endian": g.i(0, 3)} for _ in range(nroots)]
        budget = [g.i(1, 7)]

        def block(depth, pws):
            """A block below maps of widths pws (one per root visible)."""
            blk = {"regs": [], "subs": [], "maps": []}
            for pw in pws:
                if pw is None:
                    blk["maps"].append(None)
                    continue
                w = pw
                if depth and not ba and g.b(1, 3) and pw < 8:
                    w = g.pick([x for x in (2, 4, 8) if x > pw])
                blk["maps"].append({"w": w, "endian": g.i(0, 3), "gap": g.pick([0, 0, 1, 5, 64])})
            ws = [m["w"] for m in blk["maps"] if m]
            mixed = any(m and p != m["w"] for m, p in zip(blk["maps"], pws)) or depth and blk_wide[-1]
            blk_wide.append(mixed)
            for _ in range(g.i(0 if depth < 2 else 1, 3)):
                if mixed:
                    nb = g.pick([x for x in (1, 2, 4, 8) if all(x % w == 0 for w in ws)] or [8])
                else:
                    nb = g.pick([1, 2, 3, 4, 4, 5, 6, 7, 8])
                r = {"nb": nb, "bits": nb * 8 - g.pick([0, 0, 1, 7]), "in": [bool(m) and g.b(3, 4) for m in blk["maps"]],
                     "gap": [g.pick([0, 0, 0, 1, 3, 16]) for _ in pws], "unmapped": g.b(1, 12)}
                blk["regs"].append(r)
            while budget[0] > 0 and depth < 3 and g.b(3, 5):
                budget[0] -= 1
                vis = [m["w"] if m and (i == 0 or g.b(2, 3)) else None for i, m in enumerate(blk["maps"])]
                if not any(vis):
                    vis = [m["w"] if m else None for m in blk["maps"]]
                blk["subs"].append(block(depth + 1, vis))
            blk_wide.pop()
            return blk
        blk_wide = [False]
        top = block(0, [r["w"] for r in roots])
        for m, r in zip(top["maps"], roots):
            m["endian"] = r["endian"]
            m["w"] = r["w"]
        ops = []
        for _ in range(g.i(1, 10)):
            k = g.i(0, 9)
            ops.append([["write", "read"][k % 2] if k < 6 else ["moveR", "moveR", "moveS", "lookup"][k - 6], g.i(0, 63), g.i(0, 7), g.bits(64), g.i(0, 9)])
        return {"mode": "tree", "ba": ba, "roots": roots, "top": top, "ops": ops, "seed": g.bits(32), "auto": g.b(), "rsp": g.b(1, 4), "dflt": [g.pick([0, 0, 1, 2]) for _ in range(5)]}

    def conflict(g):
        w = g.pick([1, 2, 4])
        wide = g.pick([1, 1, 4, 16])
        els = []
        for i in range(g.i(2, 6)):
            blk = g.i(0, 2)
            at = g.i(0, 6) * g.pick([1, 1, 1, wide])
            if g.b():
                els.append({"n": "r%d" % i, "blk": blk, "at": at, "nb": w * g.i(1, 3) if w < 4 else w * g.i(1, 2)})
            else:
                els.append({"n": "m%d" % i, "blk": blk, "at": at, "nb": w * g.pick([1, 1, 2]), "size": g.i(1, 4)})
        return {"mode": "conflict", "w": w, "ba": g.b(), "endian": g.i(0, 1), "bases": [g.i(0, 12), g.i(0, 12)], "base": g.pick([0, 0x100]), "els": els,
                "moves": [[g.i(0, 9), g.i(0, 20)] for _ in range(g.i(0, 5))]}

    def overlap(g):
        slots = g.i(1, 4)
        regs = []
        for s in range(slots):
            if g.b(2, 5):
                regs.append({"slot": s, "pol": g.pick(["RO", "RC", "RS"]), "rights": g.pick(["RW", "RO"]), "nb": 4})
                regs.append({"slot": s, "pol": g.pick(["WO", "WOC", "WOS", "WO1"]), "rights": "RW", "nb": 4})
                continue
            for _ in range(2 if g.b(2, 3) else 1):
                regs.append({"slot": s, "pol": g.pick(["RO", "WO", "RW", "RC", "WOC", "W1C", "RS", "WOS", "WO1"]), "rights": g.pick(["RW", "RW", "RO", "WO"]), "nb": 4})
        order = g.perm(list(range(len(regs))))
        return {"mode": "overlap", "regs": [regs[i] for i in order], "w": g.pick([4, 2, 1]),
                "ops": [[g.pick(["write", "read"]), g.i(0, 63), g.bits(32)] for _ in range(g.i(1, 6))]}
    return gen(fn, 300)


def run(case):
    return {"overlap": run_overlap, "conflict": run_conflict, "tree": run_tree}[case["mode"]](case)


def run_tree(case):
    import random
    from uvm import UVMComponent
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO, UVM_IS_OK, UVM_NOT_OK, UVM_NO_HIER)
    rep = Reports()
    rnd = random.Random(case["seed"])
    ENDIAN = [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO]
    ba = case["ba"]
    st = {"nontriv": 0, "acc": 0, "fail": None, "beats": 0, "moved": 0}
    regs, subs = [], []      # model records
    buses = []               # per root: list of accesses seen; queue of read data
    box = {}

    def make(blk, spec, models, parent, depth):
        """Build the block, its maps, registers and children; returns the uvm maps by root."""
        maps = [None if m is None else blk.create_map("m%d" % i, case["roots"][i]["base"] if parent is None else 0x77, mm.w, ENDIAN[mm.endian], int(ba))
                for i, (m, mm) in enumerate(zip(spec["maps"], models))]
        real = [m for m in maps if m is not None]
        mps = []
        blk.get_maps(mps)
        check(len(mps) == len(real) and all(a is b for a, b in zip(mps, real)), "get_maps of %s: %r", blk.get_full_name(), mps)
        dm = real[0]
        check(blk.get_default_map() is dm, "the default map of %s is %r, not its first map", blk.get_full_name(), blk.get_default_map())
        d = case["dflt"][len(regs) % 5]
        if d and len(real) >= d:
            dm = real[d - 1]
            blk.set_default_map(dm)
            check(blk.get_default_map() is dm, "set_default_map")
        for k, r in enumerate(spec["regs"]):
            x = make_reg("r%d" % k, r["bits"], [{"name": "f", "lsb": 0, "n": r["bits"], "pol": "RW", "vol": 0, "reset": 0}])
            x.configure(blk)
            rec = {"reg": x, "spec": r, "blk": blk, "maps": {}, "depth": depth, "dmap": dm}
            for i, mp in enumerate(maps):
                if mp is None or not r["in"][i]:
                    continue
                mm = models[i]
                size = max(1, -(-r["nb"] // mm.w)) * mm.step
                home, spare = mm.alloc(size, r["gap"][i]), mm.alloc(size, 0)
                rec["maps"][i] = {"map": mp, "mm": mm, "off": home, "spots": [home, spare, None], "unmapped": r["unmapped"]}
                if r["unmapped"]:
                    rec["maps"][i]["off"] = None
                mp.add_reg(x, home, "RW", int(r["unmapped"]))
            regs.append(rec)
        for k, s in enumerate(spec["subs"]):
            child = UVMRegBlock("b%d" % k, UVM_NO_COVERAGE)
            child.configure(blk)
            cm = [None if m is None else MapModel(m["w"], m["endian"], ba, models[i]) for i, m in enumerate(s["maps"])]
            cmaps = make(child, s, cm, blk, depth + 1)
            for i, m in enumerate(s["maps"]):
                if m is None:
                    continue
                size = max(1, cm[i].cursor) * cm[i].k
                home, spare = models[i].alloc(size, m["gap"]), models[i].alloc(size, 0)
                cm[i].off = home
                maps[i].add_submap(cmaps[i], home)
                subs.append({"map": cmaps[i], "pmap": maps[i], "mm": cm[i], "spots": [home, spare], "depth": depth + 1})
        box.setdefault("maps", []).extend((m, mm, i, blk) for i, (m, mm) in enumerate(zip(maps, models)) if m is not None)
        return maps

    def expected(rec, i):
        e = rec["maps"][i]
        return e["mm"].phys(e["off"], rec["spec"]["nb"])

    def table(i):
        t = {}
        for rec in regs:
            if i in rec["maps"] and rec["maps"][i]["off"] is not None:
                for a in expected(rec, i):
                    t[a] = rec["reg"]
        return t

    def verify(what):
        for rec in regs:
            r = rec["reg"]
            for i, e in rec["maps"].items():
                if e["off"] is None:
                    continue
                want = expected(rec, i)
                for mp in {e["map"], box["roots"][i]}:
                    addrs = []
                    w = r.get_addresses(mp, addrs)
                    eq(addrs, want, "%s: addresses of %s through %s" % (what, r.get_full_name(), mp.get_full_name()))
                    eq(r.get_address(mp), want[0], what + ": get_address")
                    eq(r.get_offset(mp), e["off"], what + ": get_offset")
                    eq(w, e["mm"].minw, what + ": access width")
                    check(r.is_in_map(mp), "%s: is_in_map", what)
                    check(r.get_local_map(mp) is e["map"], "%s: get_local_map", what)
        for i, rt in enumerate(box["roots"]):
            t = table(i)
            for a in sorted(t)[:40] + [x + 1 for x in sorted(t)[:10]] + [0x7fffffff]:
                for rd in (True, False):
                    check(rt.get_reg_by_offset(a, rd) is t.get(a), "%s: get_reg_by_offset(%#x) in root %d: %r, expected %r", what, a, i,
                          getattr(rt.get_reg_by_offset(a, rd), "get_full_name", lambda: None)(), getattr(t.get(a), "get_full_name", lambda: None)())

    def dut(i):
        def f(kind, addr, data, be):
            k = len(buses[i])
            out = rnd.getrandbits(64)
            buses[i].append((kind, addr, data if kind == "write" else out, be))
            return out, st["fail"] != k
        return f

    async def access(o, what):
        rec = regs[o[1] % len(regs)]
        x, spec = rec["reg"], rec["spec"]
        if not rec["maps"]:
            return
        i = sorted(rec["maps"])[o[2] % len(rec["maps"])]
        e = rec["maps"][i]
        mm = e["mm"]
        chain = [e["map"]]
        while chain[-1].get_parent_map() is not None:
            chain.append(chain[-1].get_parent_map())
        mp = chain[o[2] // 2 % len(chain)]
        dflt = [j for j, q in rec["maps"].items() if len(rec["maps"]) == 1 or q["map"] is rec["dmap"]]
        if o[2] % 2 and dflt:
            i, mp = dflt[0], None
            e = rec["maps"][i]
            mm = e["mm"]
            check(x.get_default_map() is e["map"], "%s: get_default_map of %s", what, x.get_full_name())
            check(x.get_local_map(None) is e["map"], "%s: get_local_map(None) of %s", what, x.get_full_name())
        for b in buses:
            b.clear()
        bw = mm.minw * 8
        mask = (1 << bw) - 1
        status, val = [], []
        mapped = e["off"] is not None
        want = expected(rec, i) if mapped else []
        st["fail"] = o[4] if mapped and o[4] < len(want) and o[3] % 3 == 0 else None
        n_err = len(rep.errors())
        mir0 = x.get_mirrored_value()
        if o[0] == "write":
            v = o[3] & ((1 << spec["bits"]) - 1)
            await x.write(status, v, _map=mp)
        else:
            await x.read(status, val, _map=mp)
        got = buses[i]
        check(all(not b for j, b in enumerate(buses) if j != i), "%s: access on another bus: %r", what, buses)
        if not mapped:
            eq((status, got, len(rep.errors()) - n_err), ([UVM_NOT_OK], [], 1), what + ": access to an unmapped register")
            return
        beats = want if st["fail"] is None else want[:st["fail"] + 1]
        if mm.w == mm.minw or len(beats) < 2:
            pass
        eq([(k, a, be) for k, a, _, be in got], [(o[0], a, (1 << mm.minw) - 1) for a in beats], what + ": beats of %s" % x.get_full_name())
        log = box["logs"][i][-len(beats):]
        eq([l[4] for l in log], [min(spec["bits"] - k * bw, bw) for k in range(len(beats))], what + ": bits per beat")
        eq(status, [UVM_IS_OK if st["fail"] is None else UVM_NOT_OK], what + ": status")
        if o[0] == "write":
            eq([d for _, _, d, _ in got], [v >> k * bw & mask for k in range(len(beats))], what + ": data per beat of %#x" % v)
        elif st["fail"] is None:
            v = 0
            for k, (_, _, d, _) in enumerate(got):
                v |= (d & mask) << k * bw
            v &= (1 << spec["bits"]) - 1
            eq([y & ((1 << spec["bits"]) - 1) for y in val], [v], what + ": value read")
        if st["fail"] is None:
            eq(x.get_mirrored_value(), v if case["auto"] else mir0, what + ": mirrored value")
        st["acc"] += 1
        st["beats"] += len(beats)
        if len(beats) > 1 or rec["depth"] > 1 or st["moved"]:
            st["nontriv"] += 1
        st["fail"] = None

    async def run_phase(self, phase):
        phase.raise_objection(self)
        verify("after lock_model")
        for k, o in enumerate(case["ops"]):
            what = "op %d %r" % (k, o)
            if o[0] in ("write", "read"):
                if regs:
                    await access(o, what)
            elif o[0] == "moveR" and regs:
                rec = regs[o[1] % len(regs)]
                if not rec["maps"]:
                    continue
                i = sorted(rec["maps"])[o[2] % len(rec["maps"])]
                e = rec["maps"][i]
                to = e["spots"][o[4] % 3]
                rec["reg"].set_offset(e["map"], to if to is not None else o[4], int(to is None))
                e["off"] = to
                st["moved"] += 1
            elif o[0] == "moveS" and subs:
                s = subs[o[1] % len(subs)]
                s["mm"].off = s["spots"][o[4] % 2]
                s["pmap"].set_submap_offset(s["map"], s["mm"].off)
                eq(s["pmap"].get_submap_offset(s["map"]), s["mm"].off, what)
                st["moved"] += 1
            w0, e0 = len(rep.warnings()), len(rep.errors())
            verify("after " + what)
            eq((len(rep.warnings()) - w0, len(rep.errors()) - e0), (0, 0), "reports of the look-ups after " + what)
        # reset through a map: exactly the registers below it
        mp = box["maps"][case["seed"] % len(box["maps"])][0]
        below = []
        mp.get_registers(below)
        old = {}
        for n, rec in enumerate(regs):
            f = rec["reg"].fl["f"]
            f.set_reset(n + 1, "SOFT")
            rec["reg"].predict(0)
            old[n] = f.get_reset("SOFT")
        mp.reset("SOFT")
        for n, rec in enumerate(regs):
            eq(rec["reg"].get_mirrored_value(), old[n] if any(rec["reg"] is x for x in below) else 0, "%s after reset(SOFT) of %s" % (rec["reg"].get_full_name(), mp.get_full_name()))
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        models = [MapModel(r["w"], r["endian"], ba, None, r["base"]) for r in case["roots"]]
        self.conn = []
        box["sqr"], box["logs"] = [], []
        for i in range(len(models)):
            buses.append([])
            sqr, ad, log, conn = bus_env(self, dut(i), case["rsp"], (0,), "b%d" % i)
            box["sqr"].append((sqr, ad))
            box["logs"].append(log)
            self.conn.append(conn)
        blk = UVMRegBlock("top", UVM_NO_COVERAGE)
        box["roots"] = make(blk, case["top"], models, None, 0)
        blk.lock_model()
        # structure of the map tree
        for mp, mm, i, b in box["maps"]:
            check(mp.get_root_map() is box["roots"][i], "get_root_map of %s", mp.get_full_name())
            check(mp.get_parent() is b, "get_parent of %s", mp.get_full_name())
            eq(mp.get_full_name(), b.get_full_name() + ".m%d" % i, "map name")
            eq(mp.get_n_bytes(UVM_NO_HIER), mm.w, "local width")
            eq(mp.get_addr_unit_bytes(), 1 if ba else mm.w, "address unit")
            flat, q = mm.base if mm.parent is None else 0, mm
            while q.parent is not None:
                flat, q = flat + q.off + (q.parent.base if q.parent.parent is None else 0), q.parent
            eq(mp.get_base_addr(), flat, "get_base_addr of " + mp.get_full_name())
            eq(mp.get_base_addr(UVM_NO_HIER), case["roots"][i]["base"] if mm.parent is None else 0x77, "get_base_addr(UVM_NO_HIER) of " + mp.get_full_name())
            got, want = [], [rec["reg"] for rec in regs if i in rec["maps"] and (rec["maps"][i]["map"] is mp or under(rec["maps"][i]["map"], mp))]
            mp.get_registers(got)
            check(len(got) == len(want) and set(map(id, got)) == set(map(id, want)), "get_registers of %s: %r", mp.get_full_name(), [x.get_full_name() for x in got])
            sm = []
            mp.get_submaps(sm)
            eq(sorted(x.get_full_name() for x in sm), sorted(s["map"].get_full_name() for s in subs if under(s["map"], mp)), "get_submaps of " + mp.get_full_name())

    def under(m, anc):
        m = m.get_parent_map()
        while m is not None:
            if m is anc:
                return True
            m = m.get_parent_map()
        return False

    def connect(self, phase):
        for c in self.conn:
            c()
        for i, rt in enumerate(box["roots"]):
            rt.set_sequencer(*box["sqr"][i])
            rt.set_auto_predict(case["auto"])
            rt.set_check_on_read(False)
            for mp, mm, j, b in box["maps"]:
                if j == i:
                    eq(bool(mp.get_check_on_read()), False, "get_check_on_read of %s below a root with it off" % mp.get_full_name())
                    eq(bool(mp.get_root_map().get_auto_predict()), bool(case["auto"]), "get_auto_predict")
    top = comp_class("R03Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    check(not rep.warnings(), "unexpected warning %r", rep.warnings()[:2])
    return {"nontrivial": st["nontriv"] > 0, "accesses": st["acc"], "beats": st["beats"], "moves": st["moved"]}


def run_conflict(case):
    import re
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN
    rep = Reports()
    w, ba = case["w"], case["ba"]
    E = [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN][case["endian"]]
    top = UVMRegBlock("top", UVM_NO_COVERAGE)
    root = MapModel(w, case["endian"], ba, None, case["base"])
    blks, maps, models = [top], [top.create_map("map", case["base"], w, E, int(ba))], [root]
    for i in range(2):
        b = UVMRegBlock("b%d" % i, UVM_NO_COVERAGE)
        b.configure(top)
        blks.append(b)
        maps.append(b.create_map("map", 0, w, E, int(ba)))
        mm = MapModel(w, case["endian"], ba, root)
        mm.off = case["bases"][i] * mm.step
        models.append(mm)
        maps[0].add_submap(maps[-1], mm.off)
    els = []

    def place(e, at):
        mm = models[e["blk"]]
        e["off"] = at * mm.step
        if "size" not in e:
            e["addrs"] = set(mm.phys(e["off"], e["nb"]))
        else:
            k = -(-e["nb"] // w) * mm.step
            a = [x for j in range(e["size"]) for x in mm.phys(e["off"] + j * k, e["nb"])]
            e["addrs"] = set(range(min(a), max(a) + 1))
    for e in case["els"]:
        e = dict(e)
        place(e, e["at"])
        if "size" in e:
            x = UVMMem(e["n"], e["size"], e["nb"] * 8)
        else:
            x = make_reg(e["n"], e["nb"] * 8, [{"name": "f", "lsb": 0, "n": e["nb"] * 8, "pol": "RW", "vol": 0, "reset": 0}])
        x.configure(blks[e["blk"]])
        (maps[e["blk"]].add_mem if "size" in e else maps[e["blk"]].add_reg)(x, e["off"])
        e["x"], e["full"] = x, x.get_full_name()
        els.append(e)

    def pairs(only=None):
        """conflicts, and those that must be reported by name"""
        conf, must = set(), set()
        for i, a in enumerate(els):
            for b in els[i + 1:]:
                if a["addrs"] & b["addrs"] and (only is None or only is a or only is b):
                    p = frozenset((a["full"], b["full"]))
                    conf.add(p)
                    third = [c for c in els if c is not a and c is not b and "size" not in c and any("size" not in e and e["addrs"] & c["addrs"] for e in (a, b))]
                    if not third:
                        must.add(p)
        return conf, must

    def reported(msgs, what):
        names, out = {e["full"] for e in els}, set()
        for m in msgs:
            t = [x for x in re.findall(r"[\w.]+", m[2]) if x in names]
            if len(set(t)) == 2:
                out.add(frozenset(t))
        return out

    def compare(w0, what, only=None):
        conf, must = pairs(only)
        got = reported(rep.warnings()[w0:], what)
        check(got <= conf, "%s: conflicts reported that do not exist: %r (conflicts %r)", what, [sorted(p) for p in got - conf], [sorted(p) for p in conf])
        check(must <= got, "%s: conflicts not reported: %r (reported %r)", what, [sorted(p) for p in must - got], [sorted(p) for p in got])
        check(bool(conf) == bool(got), "%s: no conflict reported of %r", what, [sorted(p) for p in conf])
        return conf
    top.lock_model()
    found = len(compare(0, "lock_model"))
    for k, (i, at) in enumerate(case["moves"]):
        regs = [e for e in els if "size" not in e]
        if any("size" not in a and "size" not in b and a["addrs"] & b["addrs"] for n, a in enumerate(els) for b in els[n + 1:]) or not regs:
            break
        e = regs[i % len(regs)]
        place(e, at)
        w0 = len(rep.warnings())
        e["x"].set_offset(maps[e["blk"]], e["off"])
        found += len(compare(w0, "move %d of %s to %d" % (k, e["full"], e["off"]), e))
    check(not rep.errors(), "unexpected %r", rep.errors()[:1])
    return {"nontrivial": found > 0, "conflicts": found}


def run_overlap(case):
    from uvm import UVMComponent
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_IS_OK, UVM_NOT_OK
    rep = Reports()
    w = case["w"]
    beats = 4 // w
    seen = []
    st = {"pairs": 0}
    regs = []
    kinds = []
    for r in case["regs"]:
        p = restricted(r["pol"], r["rights"])
        kinds.append({"RO": "RO", "RC": "RO", "RS": "RO", "WO": "WO", "WOC": "WO", "WOS": "WO", "WO1": "WO"}.get(p, "RW"))

    def dut(kind, addr, data, be):
        seen.append((kind, addr))
        return 0, True

    slots = {}
    for i, r in enumerate(case["regs"]):
        slots.setdefault(r["slot"], []).append(i)
    warn = 0
    refuse = {}
    for s, l in slots.items():
        if len(l) == 2:
            if sorted(kinds[i] for i in l) == ["RO", "WO"]:
                st["pairs"] += 1
                for i in l:
                    refuse[i] = "write" if kinds[i] == "RO" else "read"
            else:
                warn += beats

    async def run_phase(self, phase):
        phase.raise_objection(self)
        for s, l in slots.items():
            for b in range(beats):
                for rd in (True, False):
                    got = self.map.get_reg_by_offset(s * 8 + b * w, rd)
                    want = [regs[i] for i in l]
                    if len(l) == 2 and l[0] in refuse:
                        want = [regs[i] for i in l if kinds[i] == ("RO" if rd else "WO")]
                    check(any(got is x for x in want), "register found for %s at %#x: %r", "reading" if rd else "writing", s * 8 + b * w, got)
        for k, o in enumerate(case["ops"]):
            i = o[1] % len(regs)
            status, val = [], []
            e0, s0 = len(rep.errors()), len(seen)
            if o[0] == "write":
                await regs[i].write(status, o[2])
            else:
                await regs[i].read(status, val)
            bad = refuse.get(i) == o[0]
            eq((status, len(rep.errors()) - e0), ([UVM_NOT_OK if bad else UVM_IS_OK], int(bad)), "op %d %r on a %s register" % (k, o, kinds[i]))
            eq(seen[s0:], [] if bad else [(o[0], case["regs"][i]["slot"] * 8 + b * w) for b in range(beats)], "op %d %r: bus accesses" % (k, o))
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr, self.ad, self.log, self.conn = bus_env(self, dut)
        blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
        self.map = blk.create_map("map", 0, w, UVM_LITTLE_ENDIAN)
        for i, r in enumerate(case["regs"]):
            x = make_reg("r%d" % i, 32, [{"name": "f", "lsb": 0, "n": 32, "pol": r["pol"], "vol": 0, "reset": 0}])
            x.configure(blk)
            self.map.add_reg(x, r["slot"] * 8, r["rights"])
            regs.append(x)
        w0 = len(rep.warnings())
        blk.lock_model()
        eq(len(rep.warnings()) - w0, warn, "overlap warnings %r" % rep.warnings())

    def connect(self, phase):
        self.conn()
        self.map.set_sequencer(self.sqr, self.ad)
        self.map.set_check_on_read(False)
    top = comp_class("R03OverlapTop", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    return {"nontrivial": st["pairs"] > 0, "pairs": st["pairs"]}
