from util import *
from regs import *

ID = "R09"
META = {
    "title": "A register block is the sum of what it contains",
    "statement": "For every tree of register blocks, register files, registers, memories and maps: full names, parents and the lists of registers, memories, blocks, fields and maps are those of the tree, look-ups by name find the object (own contents first) or warn and return None, nothing can be added after the model is locked or twice, and a locked root whose name another root has is reported. reset(kind) resets every register below, needs_update tells whether any register below has a desired value that is not mirrored, update writes exactly those registers once each and nothing else, mirror reads every register below once and, when checking, reports exactly those that differ; their status is UVM_NOT_OK exactly when an access failed. write_reg_by_name writes the named register or fails. Coverage switched at a block reaches everything below, limited by what each object was built with, and sample and sample_values are called for exactly the objects concerned. The default access path is that of the nearest enclosing block which has one. Full HDL paths are every combination of the paths of the enclosing blocks for the abstraction, cut off at a declared root.",
    "over": ["inputs", "histories"],
    "quant": "all block trees, register layouts, operation histories at any level, reset kinds, coverage models, HDL path declarations and bus errors",
    "why": "Tests build one block with a few registers; nested blocks, partial updates, failures and HDL path combinations are not exercised.",
    "files": ["src/uvm/reg/uvm_reg_block.py", "src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_reg_file.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_field.py"],
    "mech": [["UVMRegBlock.update / mirror / reset / needs_update / get_reg_by_name", "src/uvm/reg/uvm_reg_block.py"], ["UVMRegBlock.get_full_hdl_path / set_hdl_path_root", "src/uvm/reg/uvm_reg_block.py"],
             ["UVMReg.get_full_hdl_path / set_coverage / build_coverage", "src/uvm/reg/uvm_reg.py"]],
    "note": "Generated trees on a simulated bus; a recorder of accesses and samples is compared with a tree model after every operation.",
}
RULE = "an operation on a block with registers at two or more levels below it"
N = (120, 12000)
ASSUMPTIONS = ["register files declare no HDL paths (not implemented there)", "after a failed register update the remaining registers of that block may or may not have been updated"]
SIMPLE = ["RW", "RW", "RW", "RO", "WRC", "WO", "RC"]


def strategy():
    def fn(g):
        budget = [g.pick([2, 1, 3, 6])]
        kinds = ["RTL", "GATES"]

        def paths():
            return {k: g.pick([["p%d" % g.i(0, 3)], ["a.b"], [], ["x", "y"], [""]]) for k in kinds}

        def block(depth):
            b = {"regs": [], "mems": g.i(0, 1) if g.b(1, 3) else 0, "subs": [], "rfs": g.pick([0, 0, 1, 2]), "hdl": paths(), "root": {k: g.pick(["top.dut", ""]) for k in kinds if g.b(1, 10)},
                 "cov": g.i(0, 3), "dk": g.pick(["RTL", "GATES"]), "gap": g.pick([0, 0, 4]), "dflt": g.b(1, 5), "path": g.pick([0, 0, 0, 1, 2])}
            for _ in range(g.i(0 if depth < 2 else 1, 3)):
                n = g.pick([32, 8, 16])
                fs = gen_fields(g, n, SIMPLE, maxf=3)
                b["regs"].append({"n": n, "fields": fs, "rf": g.i(-1, b["rfs"] - 1), "cov": g.i(0, 3), "soft": g.bits(n) if g.b() else None,
                                  "hdl": {k: [[[g.pick(["q%d" % g.i(0, 2), "r"]), *g.pick([[0, 4], [-1, -1], [8, 8]])] for _ in range(g.i(1, 2))] for _ in range(g.pick([1, 0, 1, 2]))] for k in kinds}})
            while budget[0] > 0 and depth < 3 and g.b(4, 5):
                budget[0] -= 1
                b["subs"].append(block(depth + 1))
            return b
        top = block(0)
        ops = []
        for _ in range(g.i(2, 12)):
            k = g.i(0, 14)
            ops.append([["set", "set", "set", "update", "update", "mirror", "mirror", "reset", "write", "byname", "cover", "values", "corrupt", "predict", "corrupt"][k],
                        g.i(0, 15), g.bits(32), g.i(0, 15), g.i(0, 12)])
        return {"top": top, "ops": ops, "rsp": g.b(1, 5), "delays": [g.pick([0, 0, 1]) for _ in range(2)], "incl": [[g.i(0, 19), g.i(0, 3), g.i(0, 5)] for _ in range(g.pick([0, 0, 1, 2, 3]))],
                "dup": g.b(1, 6), "auto": g.b(4, 5)}
    return gen(fn, 300)


def run(case):
    from uvm import UVMComponent
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_file import UVMRegFile
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_IS_OK, UVM_NOT_OK, UVM_CHECK, UVM_NO_CHECK, UVM_NO_HIER, UVM_HIER, UVM_CVR_ALL, UVM_CVR_REG_BITS,
                                       UVM_CVR_ADDR_MAP, UVM_BACKDOOR, UVM_DEFAULT_PATH, UVM_FRONTDOOR, uvm_hdl_path_slice)
    from uvm.reg.uvm_reg_field import UVMRegField
    COV = [0, UVM_CVR_REG_BITS, UVM_CVR_ADDR_MAP, UVM_CVR_REG_BITS | UVM_CVR_ADDR_MAP]
    rep = Reports()
    blks, regs, mems, samples, accesses = [], [], [], [], []
    st = {"nt": 0, "ops": 0}
    box = {"fail": None, "n": 0}

    class Reg(UVMReg):
        def sample(self, data, byte_en, is_read, _map):
            samples.append((self.get_full_name(), bool(is_read)))

        def sample_values(self):
            samples.append((self.get_full_name(), "values"))

    class Blk(UVMRegBlock):
        def sample(self, offset, is_read, _map):
            samples.append((self.get_full_name(), offset, bool(is_read)))

    def make(spec, parent, name):
        """parent: record of the enclosing block or None"""
        full = name if parent is None else parent["full"] + "." + name
        b = Blk(name, COV[spec["cov"]])
        rec = {"b": b, "spec": spec, "full": full, "parent": parent, "regs": [], "mems": [], "subs": [], "cov": COV[spec["cov"]], "on": 0, "n": len(blks), "rfs": []}
        blks.append(rec)
        if parent is None:
            b.configure(None, "")
        else:
            b.configure(parent["b"], "")
            parent["subs"].append(rec)
        for k, l in spec["hdl"].items():
            for p in l:
                b.add_hdl_path(p, k)
        for k, p in spec["root"].items():
            b.set_hdl_path_root(p, k)
        b.set_default_hdl_path(spec["dk"])
        m = rec["map"] = b.create_map("map" if spec["dflt"] else "m%d" % rec["n"], 0, 4, UVM_LITTLE_ENDIAN)
        check(b.get_default_map() is m, "default map of %s", full)
        for k in range(spec["rfs"]):
            rf = UVMRegFile("rf%d" % k)
            up = rec["rfs"][-1] if rec["rfs"] and k % 2 else None
            rf.configure(b, up)
            rec["rfs"].append(rf)
            eq(rf.get_full_name(), (up.get_full_name() if up else full) + ".rf%d" % k, "name of a register file")
            check(rf.get_block() is b, "block of %s", rf.get_full_name())
        at = 0
        for k, s in enumerate(spec["regs"]):
            nm = "r%d" % (k if k < 2 else rec["n"] * 10 + k)
            x = make_reg(nm, s["n"], s["fields"], Reg)
            x.add_coverage(COV[s["cov"]])
            rf = rec["rfs"][s["rf"]] if s["rf"] >= 0 else None
            x.configure(b, rf)
            m.add_reg(x, at)
            r = {"x": x, "name": nm, "spec": s, "blk": rec, "full": (rf.get_full_name() if rf else full) + "." + nm, "rf": rf, "off": at, "fs": [FieldState(f) for f in s["fields"]],
                 "dut": DutReg(s["fields"], s["n"]), "cov": COV[s["cov"]], "on": 0}
            at += 4
            if s["soft"] is not None:
                x.set_reset(s["soft"], "SOFT")
                for f in r["fs"]:
                    f.resets["SOFT"] = s["soft"] >> f.lsb & f.mask
            for kd, l in s["hdl"].items():
                for concat in l:
                    for i, sl in enumerate(concat):
                        x.add_hdl_path_slice(sl[0], sl[1], sl[2], i == 0, kd)
            rec["regs"].append(r)
            regs.append(r)
        if spec["mems"]:
            x = UVMMem("mem%d" % rec["n"], 4, 32, "RW", COV[1])
            x.configure(b)
            m.add_mem(x, at)
            rec["mems"].append({"x": x, "cov": COV[1], "on": 0, "full": full + ".mem%d" % rec["n"]})
            mems.append(rec["mems"][-1])
            at += 16
        for k, s in enumerate(spec["subs"]):
            sub = make(s, rec, "b%d" % (k if k < 1 else rec["n"] * 10 + k))
            sub["at"] = at + s["gap"]
            m.add_submap(sub["map"], sub["at"])
            at = sub["at"] + sub["size"]
        rec["size"] = max(at, 4)
        return rec

    def below(rec, key):
        out = list(rec[key])
        for s in rec["subs"]:
            out += below(s, key)
        return out

    def levels(rec):
        return sum(bool(r["regs"]) for r in [rec] + below(rec, "subs"))

    def base(rec):
        return 0 if rec["parent"] is None else base(rec["parent"]) + rec["at"]

    def one(call, what, warn=1, errs=0):
        """Run call(); it must give this many warnings and errors."""
        w0, e0 = len(rep.warnings()), len(rep.errors())
        out = call()
        eq((len(rep.warnings()) - w0, len(rep.errors()) - e0), (warn, errs), what + ": reports %r %r" % (rep.warnings()[w0:], rep.errors()[e0:]))
        return out

    def structure():
        for rec in blks:
            b, full = rec["b"], rec["full"]
            eq(b.get_full_name(), full, "full name of a block")
            check(b.get_parent() is (rec["parent"]["b"] if rec["parent"] else None), "parent of %s", full)
            check(b.is_locked(), "%s is not locked", full)
            for hier in (UVM_HIER, UVM_NO_HIER):
                for fn, key, obj in (("get_registers", "regs", "x"), ("get_memories", "mems", "x"), ("get_blocks", "subs", "b")):
                    got = []
                    getattr(b, fn)(got, hier)
                    want = [r[obj] for r in (below(rec, key) if hier == UVM_HIER else rec[key])]
                    check(len(got) == len(want) and set(map(id, got)) == set(map(id, want)), "%s of %s: %r", fn, full, [x.get_full_name() for x in got])
            got = []
            b.get_maps(got)
            check(got == [rec["map"]] and rec["map"].get_parent() is b, "maps of %s", full)
            eq(rec["map"].get_full_name(), full + "." + rec["map"].get_name(), "full name of a map")
            # look-ups: own contents first
            for nm in {r["name"] for r in regs}:
                own, deep = [r for r in rec["regs"] if r["name"] == nm], [r for r in below(rec, "regs") if r["name"] == nm]
                got = one(lambda: b.get_reg_by_name(nm), "get_reg_by_name(%r) in %s" % (nm, full), int(not deep))
                if own or not deep:
                    check(got is (own[0]["x"] if own else None), "get_reg_by_name(%r) in %s: %r", nm, full, got)
                else:
                    check(any(got is r["x"] for r in deep), "get_reg_by_name(%r) in %s: %r", nm, full, got)
            for nm in {r["map"].get_name() for r in blks}:
                deep = [r for r in [rec] + below(rec, "subs") if r["map"].get_name() == nm]
                got = one(lambda: b.get_map_by_name(nm), "get_map_by_name(%r) in %s" % (nm, full), int(not deep))
                check(got is rec["map"] if rec in deep else any(got is r["map"] for r in deep) if deep else got is None, "get_map_by_name(%r) in %s", nm, full)
        # the default access path: that of the nearest enclosing block which has one
        PATHS = [UVM_DEFAULT_PATH, UVM_FRONTDOOR, UVM_BACKDOOR]
        for rec in blks:
            rec["b"].default_path = PATHS[rec["spec"]["path"]]
        for rec in blks:
            up = rec
            while up["parent"] is not None and not up["spec"]["path"]:
                up = up["parent"]
            eq(rec["b"].get_default_path(), PATHS[up["spec"]["path"] or 1], "default access path of " + rec["full"])
        for rec in blks:
            rec["b"].default_path = UVM_DEFAULT_PATH
        for r in regs:
            x = r["x"]
            eq(x.get_full_name(), r["full"], "full name of a register")
            check(x.get_parent() is r["blk"]["b"] and x.get_block() is r["blk"]["b"] and x.get_regfile() is r["rf"], "parents of %s", r["full"])
            got = []
            x.get_fields(got)
            eq([f.get_name() for f in got], [f["name"] for f in sorted(r["spec"]["fields"], key=lambda f: f["lsb"])], "fields of " + r["full"])
            for f in got:
                eq(f.get_full_name(), r["full"] + "." + f.get_name(), "full name of a field")
                check(f.get_parent() is x and f.get_register() is x and x.get_field_by_name(f.get_name()) is f, "field %s", f.get_full_name())
            check(one(lambda: x.get_field_by_name("nope"), "an unknown field") is None, "unknown field found")
            eq(x.get_address(box["root"]["map"]), base(r["blk"]) + r["off"], "address of " + r["full"])

    def hdl(rec, kind):
        """(full HDL paths, has every level a path?)"""
        if kind in rec["spec"]["root"]:
            p = rec["spec"]["root"][kind]
            return ([p] if p else []), 0
        mine = list(rec["spec"]["hdl"][kind])
        if kind == "RTL":
            mine.insert(0, "")      # from configure()
        if not mine:
            return [], 1
        up, err = hdl(rec["parent"], kind) if rec["parent"] else ([], 0)
        out = []
        for p in mine:
            if not up:
                out += [p] if p else []
            else:
                out += [q + "." + p if p else q for q in up]
        return out, err

    def hdl_paths():
        for rec in blks:
            for kind in ("RTL", "GATES", ""):
                k = kind or rec["spec"]["dk"]
                eq(rec["b"].get_default_hdl_path(), rec["spec"]["dk"], "default abstraction")
                want, err = hdl(rec, k)
                got = ["junk"]
                one(lambda: rec["b"].get_full_hdl_path(got, kind), "HDL paths of %s for %r" % (rec["full"], kind), 0, err)
                eq(got, want, "HDL paths of %s for %r" % (rec["full"], kind))
                eq(bool(rec["b"].is_hdl_path_root(kind)), k in rec["spec"]["root"], "is %s a root for %r?" % (rec["full"], kind))
                eq(bool(rec["b"].has_hdl_path(kind)), bool(rec["spec"]["hdl"][k]) or k == "RTL", "has %s an HDL path for %r?" % (rec["full"], kind))
                for r in rec["regs"]:
                    if r["rf"]:
                        continue
                    l = r["spec"]["hdl"][k]
                    eq(bool(r["x"].has_hdl_path(kind)), bool(l), "has %s an HDL path for %r?" % (r["full"], kind))
                    got = []
                    one(lambda: r["x"].get_full_hdl_path(got, kind, "/"), "HDL paths of %s for %r" % (r["full"], kind), 0, err if l else 1)
                    ws = hdl_sep(rec, k)
                    eq([[(s.path, s.offset, s.size) for s in c.slices] for c in got], [[(p + "/" + s[0], s[1], s[2]) for s in c] for c in l for p in ws] if l else [],
                       "HDL paths of %s for %r" % (r["full"], kind))

    def hdl_sep(rec, kind):
        if kind in rec["spec"]["root"]:
            return [p for p in [rec["spec"]["root"][kind]] if p]
        mine = ([""] if kind == "RTL" else []) + rec["spec"]["hdl"][kind]
        if not mine:
            return []
        up = hdl_sep(rec["parent"], kind) if rec["parent"] else []
        return [p for p in mine if p] if not up else [q + "/" + p if p else q for p in mine for q in up]

    def coverage(what):
        for rec in blks:
            for o, x in [(rec, rec["b"])] + [(r, r["x"]) for r in rec["regs"] + rec["mems"]]:
                for m in COV[1:] + [UVM_CVR_ALL]:
                    has = o["cov"] & m == m
                    eq((bool(x.has_coverage(m)), bool(x.get_coverage(m))), (has, has and o["on"] & m == m), "%s: coverage %#x of %s" % (what, m, o["full"]))

    def locked():
        rec = blks[len(case["ops"]) % len(blks)]
        b = rec["b"]
        x = make_reg("late", 8, [])
        one(lambda: b.add_reg(x), "adding a register to a locked block", 0, 1)
        one(lambda: b.add_block(UVMRegBlock("late", 0)), "adding a block to a locked block", 0, 1)
        m = UVMMem("late", 4, 8)
        one(lambda: b.add_mem(m), "adding a memory to a locked block", 0, 1)
        check(one(lambda: b.create_map("late", 0, 4, UVM_LITTLE_ENDIAN), "adding a map to a locked block", 0, 1) is None, "a map was created in a locked block")
        if regs:
            f = UVMRegField("late")
            one(lambda: f.configure(regs[0]["x"], 1, regs[0]["spec"]["n"] - 1, "RW", 0, 0, 1, 0, 0), "adding a field to a locked register", 0, 1)

    def verify(what):
        for r in regs:
            for f in r["fs"]:
                x = r["x"].fl[f.spec["name"]]
                eq((x.get_mirrored_value(), x.get()), (f.mir, f.des), "%s: mirrored and desired value of %s.%s (%s)" % (what, r["full"], f.spec["name"], f.pol))
            eq(bool(r["x"].needs_update()), any(f.mir != f.des for f in r["fs"]), "%s: needs_update of %s" % (what, r["full"]))
        for rec in blks:
            eq(bool(rec["b"].needs_update()), any(f.mir != f.des for r in below(rec, "regs") for f in r["fs"]), "%s: needs_update of %s" % (what, rec["full"]))

    def by_addr(a):
        return next(r for r in regs if base(r["blk"]) + r["off"] == a)

    def dut(kind, addr, data, be):
        r = by_addr(addr)
        box["n"] += 1
        ok = box["n"] - 1 != box["fail"]
        accesses.append((kind, r["full"], ok))
        r["hist"] = (kind, data)
        if not ok:
            return 0, False
        if kind == "write":
            r["dut"].write(data)
            return data, True
        return r["dut"].read(), True

    def did(r, kind, v):
        if case["auto"]:
            for f in r["fs"]:
                f.predict(kind, v >> f.lsb & f.mask)

    async def op(k, o):
        rec, what = blks[o[1] % len(blks)], "op %d %s of %s" % (k, o[0], blks[o[1] % len(blks)]["full"])
        mine = below(rec, "regs")
        s = []
        del accesses[:], samples[:]
        box["n"], box["fail"] = 0, None
        e0 = len(rep.errors())
        if o[0] in ("set", "corrupt", "predict", "write") and regs:
            r = (mine or regs)[o[3] % len(mine or regs)]
            v = o[2] & (1 << r["spec"]["n"]) - 1
            if o[0] == "set":
                r["x"].set(v)
                for f in r["fs"]:
                    f.set(v >> f.lsb & f.mask)
            elif o[0] == "predict":
                check(r["x"].predict(v), what)
                for f in r["fs"]:
                    f.predict("direct", v >> f.lsb & f.mask)
            elif o[0] == "corrupt":
                n = r["spec"]["fields"][o[4] % len(r["fs"])]
                r["dut"].v[n["name"]] = v & (1 << n["n"]) - 1
            else:
                await r["x"].write(s, v)
                for f in r["fs"]:
                    f.set(v >> f.lsb & f.mask)
                did(r, "write", v)
                eq((s, accesses), ([UVM_IS_OK], [("write", r["full"], True)]), what)
                eq(samples, [(r["full"], False), (r["blk"]["full"], r["off"], False)] if case["auto"] else [], what + ": samples")
        elif o[0] == "byname":
            names = sorted({r["name"] for r in regs}) + ["nope"]
            nm = names[o[3] % len(names)]
            own, deep = [r for r in rec["regs"] if r["name"] == nm], [r for r in mine if r["name"] == nm]
            w0 = len(rep.warnings())
            await rec["b"].write_reg_by_name(s, nm, o[2] & 0xFF)
            if not deep:
                eq((s, accesses, len(rep.warnings()) - w0), ([UVM_NOT_OK], [], 1), what + " %r, which does not exist" % nm)
            else:
                check(len(accesses) == 1, "%s %r: accesses %r", what, nm, accesses)
                r = next(x for x in regs if x["full"] == accesses[0][1])
                check(r in (own or deep) and accesses[0][0] == "write" and s == [UVM_IS_OK], "%s %r: %r %r", what, nm, accesses, s)
                for f in r["fs"]:
                    f.set((o[2] & 0xFF) >> f.lsb & f.mask)
                did(r, "write", o[2] & 0xFF)
        elif o[0] == "reset":
            kind = ["HARD", "SOFT", "OTHER"][o[3] % 3]
            rec["b"].reset(kind)
            for r in mine:
                for f in r["fs"]:
                    f.reset(kind)
            eq(accesses, [], what)
        elif o[0] == "cover":
            on = [0, COV[1], COV[2], UVM_CVR_ALL][o[3] % 4]
            got = rec["b"].set_coverage(on)
            eq(got, rec["cov"] & on, what + ": returned")
            for x in [rec] + below(rec, "subs") + mine + below(rec, "mems"):
                x["on"] = x["cov"] & on
            coverage(what)
        elif o[0] == "values":
            rec["b"].sample_values()
            eq(sorted(samples), sorted((r["full"], "values") for r in mine), what)
        elif o[0] == "update":
            need = [r for r in mine if any(f.mir != f.des for f in r["fs"])]
            if o[4] < len(need) and o[2] & 1:
                box["fail"] = o[4]
            vals = {r["full"]: sum(f.des << f.lsb for f in r["fs"]) for r in need}
            await rec["b"].update(s)
            seen = [a[1] for a in accesses]
            check(all(a[0] == "write" for a in accesses) and len(set(seen)) == len(seen) and set(seen) <= set(vals), "%s: accesses %r, registers to be updated %r", what, accesses, sorted(vals))
            fl = [a[1] for a in accesses if not a[2]]
            if box["fail"] is None:
                eq(sorted(seen), sorted(vals), what + ": registers updated")
                eq(s, [UVM_IS_OK], what + ": status")
            else:
                eq(s, [UVM_NOT_OK], what + ": status after a bus error")
                bad = next(r for r in need if r["full"] in fl)
                missing = [r for r in need if r["full"] not in seen]
                check(all(r["blk"] is bad["blk"] or r in below(bad["blk"], "regs") for r in missing), "%s: %r were not updated after %s failed", what, [r["full"] for r in missing], bad["full"])
                check([m for m in rep.errors()[e0:] if bad["full"] in m[2]], "%s: no error names %s: %r", what, bad["full"], rep.errors()[e0:])
                bad["lost"] = True
            for r in need:
                if r["full"] in seen and r["full"] not in fl:
                    eq(r["hist"], ("write", vals[r["full"]]), what + ": value written to " + r["full"])
                    did(r, "write", vals[r["full"]])
        elif o[0] == "mirror":
            if o[4] < len(mine) and o[2] & 1:
                box["fail"] = o[4]
            cmp = bool(o[3] % 2)
            wrong = [r["full"] for r in mine if any(f.pol not in WRITE_ONLY and r["dut"].v[f.spec["name"]] != f.mir for f in r["fs"])]
            before = {r["full"]: sum(r["dut"].v[f.spec["name"]] << f.lsb for f in r["fs"] if f.pol not in WRITE_ONLY) for r in mine}
            await rec["b"].mirror(s, UVM_CHECK if cmp else UVM_NO_CHECK)
            fl = [a[1] for a in accesses if not a[2]]
            eq(sorted(a[:2] for a in accesses), sorted(("read", r["full"]) for r in mine), what + ": accesses")
            eq(s, [UVM_NOT_OK if fl else UVM_IS_OK], what + ": status")
            errs = [m[2] for m in rep.errors()[e0:] if m[1] == "RegModel" and "match" in m[2]]
            want = [w for w in wrong if w not in fl] if cmp else []
            eq(len(errs), len(want), what + ": mismatches of %r reported: %r" % (want, errs))
            check(all(any('"%s"' % w in e for e in errs) for w in want), "%s: mismatches of %r reported: %r", what, want, errs)
            for r in mine:
                if r["full"] not in fl:
                    did(r, "read", before[r["full"]])
                elif case["auto"]:
                    r["lost"] = True
        for r in regs:
            if r.pop("lost", None):     # the mirror after a bus error is not prescribed: start again
                v = sum(r["dut"].v[f.spec["name"]] << f.lsb for f in r["fs"])
                check(r["x"].predict(v), "predict failed")
                for f in r["fs"]:
                    f.predict("direct", v >> f.lsb & f.mask)
        verify(what)
        st["ops"] += 1
        if o[0] in ("update", "mirror", "reset", "cover", "values") and levels(rec) > 1:
            st["nt"] += 1

    async def run_phase(self, phase):
        phase.raise_objection(self)
        model()
        m = box["root"]["map"]
        m.set_sequencer(self.sqr, self.ad)
        m.set_auto_predict(case["auto"])
        m.set_check_on_read(False)
        verify("at the start")
        for k, o in enumerate(case["ops"]):
            await op(k, o)
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr, self.ad, self.log, self.conn = bus_env(self, dut, case["rsp"], case["delays"])

    def model():
        """Not in the build phase, as the errors it provokes would end the test."""
        root = box["root"] = make(case["top"], None, "top")
        # which coverage models would be built
        incl = {}
        els = [(x["full"], x.get("b") or x["x"]) for rec in blks for x in [rec] + rec["regs"] + rec["mems"]]
        for n, m, glob in case["incl"]:
            full = els[n % len(els)][0]
            below = [f for f, _ in els if f.startswith(full + ".")] if glob == 0 else [full]
            UVMReg.include_coverage(full + (".*" if glob == 0 else ""), COV[m])
            for f in below:
                incl.setdefault(f, COV[m])            # as for every resource, the first one counts
        for full, x in els if case["incl"] else []:
            eq([x.build_coverage(c) for c in [UVM_CVR_ALL] + COV], [incl.get(full, 0) & c for c in [UVM_CVR_ALL] + COV], "coverage to be built for " + full)
        if root["regs"]:
            one(lambda: root["b"].add_reg(root["regs"][0]["x"]), "adding a register twice", 0, 1)
        if root["subs"]:
            one(lambda: root["b"].add_block(root["subs"][0]["b"]), "adding a block twice", 0, 1)
        if case["dup"]:
            other = UVMRegBlock("top", UVM_NO_COVERAGE)
            got = []
            other.get_root_blocks(got)
            check(len(got) == 2 and any(x is other for x in got) and any(x is root["b"] for x in got), "root blocks: %r", got)
        one(root["b"].lock_model, "locking", 0, int(case["dup"]))
        root["b"].lock_model()
        root["b"].reset()
        for r in regs:
            for f in r["fs"]:
                f.reset()
        structure()
        hdl_paths()
        coverage("at the start")
        locked()
        structure()

    def connect(self, phase):
        self.conn()
    top = comp_class("R09Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    return {"nontrivial": st["nt"] > 0, "operations": st["ops"], "blocks": len(blks), "registers": len(regs)}

