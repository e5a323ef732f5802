from util import *
from regs import *

ID = "R05"
META = {
    "title": "Back-door accesses reach exactly the hardware storage behind the model",
    "statement": "For every register layout, memory, HDL path (whole, sliced, duplicated, of several kinds and hierarchy levels) and user-defined back door (of the block or inherited), back-door write, read, mirror and update access exactly the storage of the addressed register or word, bit for bit, at any simulator path style: a write leaves in the hardware what a front-door write would by the access policies, a read returns the hardware value with write-only fields masked and applies read side effects, and the mirror of every field without those follows. A user back door is run once per hardware access with its hooks around it: pre-method, callbacks, access, callbacks, post-method, with encode callbacks forwards and decode callbacks backwards. Memory peek and poke touch one word whatever the access rights. Duplicated paths that disagree are an error; peek and poke without any back door are refused.",
    "over": ["inputs", "histories"],
    "quant": "all register layouts and policies, slicings and duplications of the storage, memory geometries and bursts, nestings of blocks, back doors, callbacks and operation histories with hardware changes in between",
    "why": "The unit tests never run a back-door access; one example reads memory words through one path, so slices, policies, hooks and inheritance are unseen.",
    "files": ["src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_backdoor.py", "src/uvm/reg/uvm_reg_block.py", "src/uvm/dpi/uvm_hdl.py"],
    "mech": [["UVMReg.do_write / do_read / backdoor_write / backdoor_read_func / get_full_hdl_path", "src/uvm/reg/uvm_reg.py"],
             ["UVMMem.do_write / do_read / peek / poke / backdoor_write / backdoor_read_func", "src/uvm/reg/uvm_mem.py"],
             ["UVMRegBackdoor.do_pre_read / do_post_read / do_pre_write / do_post_write", "src/uvm/reg/uvm_reg_backdoor.py"], ["uvm_hdl.uvm_hdl_read / uvm_hdl_deposit", "src/uvm/dpi/uvm_hdl.py"]],
    "note": "Random register models over a simulated design hierarchy; the storage and the mirror are compared with a policy model after every operation.",
}
RULE = "a sliced or duplicated path, a user back door or a non-RW policy took part in an access"
N = (150, 15000)
ASSUMPTIONS = ["the paths name existing objects of the design, and the root block has one", "registers are in one map with full access rights",
               "encode and decode callbacks are used on the back door itself (the register model predicts the encoded value)",
               "memory peek and poke are plain functions in this port: with HDL paths only"]


def gen_paths(g, n):
    """A list of duplicates; each a list of [name, offset, size] (offset -1: whole)."""
    out = []
    for d in range(g.pick([1, 1, 1, 2])):
        if g.b(1, 3):
            out.append([["d%d" % d, -1, -1]])
            continue
        cuts = sorted(set(g.i(1, n - 1) for _ in range(g.i(0, 3)))) if n > 1 else []
        at = [0] + cuts + [n]
        sl = [["d%ds%d" % (d, k), a, b - a] for k, (a, b) in enumerate(zip(at, at[1:]))]
        if g.b():
            sl.reverse()
        out.append(sl)
    return out


def strategy():
    def fn(g):
        regs = []
        for _ in range(g.i(1, 3)):
            n = g.pick([32, 8, 16, 64, 13])
            regs.append({"n": n, "fields": gen_fields(g, n), "paths": gen_paths(g, n), "gates": gen_paths(g, n) if g.b(1, 3) else None, "sub": g.b(1, 3)})
        mems = [{"bits": b, "size": g.pick([4, 1, 9]), "paths": gen_paths(g, b), "acc": g.pick(["RW", "RW", "RO"]), "sub": g.b(1, 3)} for b in [g.pick([32, 8, 5, 64])][:g.i(0, 1)]]
        ops = []
        for _ in range(g.i(2, 12)):
            k = g.i(0, 11)
            if k > 8 and mems:
                m = g.i(0, len(mems) - 1)
                size = mems[m]["size"]
                off = g.i(0, size - 1)
                cnt = min(g.i(1, 3), size - off)
                ops.append([g.pick(["mwrite", "mread", "mbwrite", "mbread", "peek", "poke", "mhw"]), m, off, [g.bits(mems[m]["bits"]) for _ in range(cnt)]])
                continue
            r = g.i(0, len(regs) - 1)
            ops.append([["write", "read", "write", "read", "mirror", "update", "hw", "split", "write", "read", "update", "hw"][k], r, g.bits(regs[r]["n"]), g.i(0, 5)])
        return {"regs": regs, "mems": mems, "ops": ops, "mode": g.pick(["hdl", "user", "hdl", "user", "none", "codec"]), "subown": g.b(1, 3), "sim": g.pick(["Icarus Verilog", "Verilator"]),
                "deflt": g.b(1, 3), "kind": g.pick(["RTL", "RTL", "GATES"]), "top": g.pick(["top", "a.b"]), "root": g.b(1, 4), "subpath": g.pick(["", "u_sub", "x.y"]), "cor": g.b(), "ncb": g.i(0, 2),
                "codec": g.some(1, 3, lambda: [g.pick(["xor", "add", "rot"]), g.bits(8)]), "off": g.i(-1, 2), "single": g.b()}
    return gen(fn, 420)


class Handle:
    def __init__(self):
        self.v = 0
        self.n = 0

    def _set(self, v):
        check(type(v) is int, "deposit of %r", v)
        self.v = v
        self.n += 1
    value = property(lambda s: s.v, _set)

    def __int__(self):
        return self.v


class Node:
    pass


def run(case):
    return run_codec(case) if case["mode"] == "codec" else run_model(case)


def run_codec(case):
    """encode/decode callbacks and hooks of a back door used directly."""
    from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
    from uvm.reg.uvm_reg_cbs import UVMRegCbs
    from uvm.reg.uvm_reg_item import UVMRegItem
    from uvm import UVMCallbacks
    rep = Reports()

    def enc(k, v):
        how, a = k
        return v ^ a if how == "xor" else (v + a) & 255 if how == "add" else (v << 3 | v >> 5) & 255

    def dec(k, v):
        how, a = k
        return v ^ a if how == "xor" else (v - a) & 255 if how == "add" else (v >> 3 | v << 5) & 255

    class Cb(UVMRegCbs):
        def encode(self, data):
            data[:] = [enc(self.k, x) for x in data]

        def decode(self, data):
            data[:] = [dec(self.k, x) for x in data]
    bk = UVMRegBackdoor("bk")
    keys = []
    for i, k in enumerate(case["codec"]):
        cb = Cb("cb%d" % i)
        cb.k = k
        UVMCallbacks.add(bk, cb)
        if i == case["off"]:
            cb.callback_mode(False)
        else:
            keys.append(k)
    vals = [o[2] & 255 for o in case["ops"] if o[0] in ("write", "read")] or [7]
    if case["single"]:
        vals = vals[:1]
    rw = UVMRegItem("rw")
    rw.value = list(vals)

    async def go():
        await bk.do_pre_write(rw)
        want = list(vals)
        for k in keys:
            want = [enc(k, v) for v in want]
        eq(rw.value, want, "encoded by %r" % keys)
        await bk.do_post_write(rw)
        eq(rw.value, want, "after do_post_write")
        await bk.do_pre_read(rw)
        eq(rw.value, want, "after do_pre_read")
        await bk.do_post_read(rw)
        eq(rw.value, vals, "decoded by %r" % keys)
    sim(go())
    check(not rep.errors(), "unexpected error %r", rep.errors()[:2])
    return {"nontrivial": len(keys) > 1, "codec": 1}


def run_model(case):
    import cocotb
    from uvm import UVMCallbacks
    from uvm.dpi.uvm_hdl import uvm_hdl
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_cbs import UVMRegCbs
    from uvm.reg.uvm_reg_map import UVMRegMap
    from uvm.reg.uvm_reg_model import (UVM_BACKDOOR, UVM_DEFAULT_PATH, UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_IS_OK, UVM_NOT_OK, UVM_CHECK, UVM_NO_CHECK,
                                       UVM_READ, UVM_BURST_READ, uvm_hdl_path_slice)
    rep = Reports()
    user = case["mode"] == "user"
    st = {"nontriv": 0, "ops": 0, "acc": 0, "disagree": 0}
    root = Node()

    def node(path):
        cur = root
        for p in [x for x in path.split(".") if x]:
            if not hasattr(cur, p):
                setattr(cur, p, Node())
            cur = getattr(cur, p)
        return cur

    def place(path, name, size):
        """Handles of a register (size None) or memory."""
        parent = node(path)
        if size is None:
            h = Handle()
            setattr(parent, name, h)
            return [h]
        hs = [Handle() for _ in range(size)]
        if case["sim"] == "Verilator":
            setattr(parent, name, hs)
        else:
            for i, h in enumerate(hs):
                setattr(parent, "%s[%d]" % (name, i), h)
        return hs
    ev = []
    storage = {}

    class Cb(UVMRegCbs):
        async def pre_read(self, rw):
            ev.append("cb%d.pre_read" % self.k)

        def post_read(self, rw):
            ev.append("cb%d.post_read" % self.k)

        async def pre_write(self, rw):
            ev.append("cb%d.pre_write" % self.k)

        async def post_write(self, rw):
            ev.append("cb%d.post_write" % self.k)

    class Bk(UVMRegBackdoor):
        async def pre_read(self, rw):
            ev.append("pre_read")

        async def post_read(self, rw):
            ev.append("post_read")

        async def pre_write(self, rw):
            ev.append("pre_write")

        async def post_write(self, rw):
            ev.append("post_write")

        def read_func(self, rw):
            ev.append(self.get_name() + ".read")
            check(rw.kind in (UVM_READ, UVM_BURST_READ), "kind %r of the item in read_func()", rw.kind)
            s = storage[rw.element]
            rw.value = [s[rw.offset + i] for i in range(len(rw.value))]
            rw.status = UVM_IS_OK

        async def write(self, rw):
            await self.do_pre_write(rw)
            ev.append(self.get_name() + ".write")
            s = storage[rw.element]
            for i, v in enumerate(rw.value):
                s[rw.offset + i] = v
            rw.status = UVM_IS_OK
            await self.do_post_write(rw)

    def bk_events(who, what):
        n = case["ncb"]
        return (["pre_" + what] + ["cb%d.pre_%s" % (i, what) for i in range(n)] + [who + "." + what]
                + ["cb%d.post_%s" % (i, what) for i in range(n)] + ["post_" + what])
    blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
    mp = blk.create_map("map", 0, 8, UVM_LITTLE_ENDIAN)
    blk.configure(None, "unused" if case["root"] else case["top"])
    if case["root"]:
        blk.set_hdl_path_root(case["top"])
    sub = UVMRegBlock("sub", UVM_NO_COVERAGE)
    smp = sub.create_map("smap", 0, 8, UVM_LITTLE_ENDIAN)
    sub.configure(blk, case["subpath"])
    mp.add_submap(smp, 0x1000)
    if any(r["gates"] for r in case["regs"]):
        blk.add_hdl_path("g_" + (case["top"].split(".")[0] or "root"), "GATES")
        sub.add_hdl_path("gsub", "GATES")
    gtop = "g_" + (case["top"].split(".")[0] or "root")
    join = lambda *p: ".".join(x for x in p if x)
    use_gates = case["kind"] == "GATES" and all(r["gates"] for r in case["regs"]) and not case["mems"]
    if use_gates:
        blk.set_default_hdl_path("GATES")
        sub.set_default_hdl_path("GATES")
    if user:
        bk = Bk("bk")
        blk.backdoor = bk
        bks = [bk]
        owner = {False: "bk", True: "bk"}
        if case["subown"]:
            bks.append(Bk("bk2"))
            sub.backdoor = bks[1]
            owner[True] = "bk2"
        for b in bks:
            for i in range(case["ncb"]):
                cb = Cb("cb%d" % i)
                cb.k = i
                UVMCallbacks.add(b, cb)
    if case["deflt"]:
        blk.default_path = UVM_BACKDOOR
    regs, mems = [], []
    cur = [dict((f["name"], f["reset"] or 0) for f in r["fields"]) for r in case["regs"]]     # hardware fields
    rest = [0] * len(case["regs"])
    places = []                                  # per register: duplicates of [(handle, off, size)]
    gplaces = []
    for i, r in enumerate(case["regs"]):
        x = make_reg("r%d" % i, r["n"], r["fields"])
        own = sub if r["sub"] else blk
        pl = []
        if not user and case["mode"] == "hdl" and len(r["paths"]) == 1 and r["paths"][0][0][1] < 0:
            x.configure(own, None, "r%d_%s" % (i, r["paths"][0][0][0]))
        else:
            x.configure(own)
            if case["mode"] == "hdl":
                for d in r["paths"]:
                    if case["single"]:
                        sl = []
                        for nm, off, size in d:
                            s = uvm_hdl_path_slice()
                            s.path, s.offset, s.size = "r%d_%s" % (i, nm), off, size
                            sl.append(s)
                        x.add_hdl_path(sl)
                    else:
                        for k, (nm, off, size) in enumerate(d):
                            x.add_hdl_path_slice("r%d_%s" % (i, nm), off, size, k == 0)
        base = join(case["top"], case["subpath"] if r["sub"] else "")
        for d in r["paths"]:
            pl.append([(place(base, "r%d_%s" % (i, nm), None)[0], off, size) for nm, off, size in d])
        gp = []
        if case["mode"] == "hdl" and r["gates"]:
            gbase = join(gtop, "gsub" if r["sub"] else "")
            for d in r["gates"]:
                for k, (nm, off, size) in enumerate(d):
                    x.add_hdl_path_slice("r%d_g%s" % (i, nm), off, size, k == 0, "GATES")
                gp.append([(place(gbase, "r%d_g%s" % (i, nm), None)[0], off, size) for nm, off, size in d])
        places.append(gp if use_gates else pl)
        gplaces.append(pl if use_gates else gp)
        (smp if r["sub"] else mp).add_reg(x, i * 8, "RW")
        regs.append(x)
    for i, m in enumerate(case["mems"]):
        x = UVMMem("m%d" % i, m["size"], m["bits"], m["acc"])
        own = sub if m["sub"] else blk
        x.configure(own)
        pl = []
        base = join(case["top"], case["subpath"] if m["sub"] else "")
        for d in m["paths"]:
            if case["mode"] == "hdl":
                for k, (nm, off, size) in enumerate(d):
                    x.add_hdl_path_slice("m%d_%s" % (i, nm), off, size, k == 0)
            pl.append([(place(base, "m%d_%s" % (i, nm), m["size"]), off, size) for nm, off, size in d])
        mems.append((x, pl))
        (smp if m["sub"] else mp).add_mem(x, 0x100)
    blk.lock_model()
    blk.reset()
    UVMRegMap.backdoor().set_check_on_read(case["cor"])
    models = [[FieldState(f) for f in r["fields"]] for r in case["regs"]]
    for ms in models:
        for m in ms:
            m.reset()
    words = [[0] * m["size"] for m in case["mems"]]
    uvm_hdl.set_dut(root)
    uvm_hdl.SIM_NAME = case["sim"]

    def hwval(i):
        return sum(cur[i][f["name"]] << f["lsb"] for f in case["regs"][i]["fields"]) | rest[i]

    def put(pl, v, n, idx=None):
        for d in pl:
            for h, off, size in d:
                h = h if idx is None else h[idx]
                h.v = v if off < 0 else v >> off & (1 << size) - 1

    def got(i):
        if user:
            return [storage[regs[i]][0]]
        return [sum(h.v if off < 0 else h.v << off for h, off, size in d) for d in places[i]]

    def set_hw(i):
        storage[regs[i]] = [hwval(i)]
        put(places[i], hwval(i), case["regs"][i]["n"])
        put(gplaces[i], 0x5a5a5a5a5a5a5a5a & (1 << case["regs"][i]["n"]) - 1, 0)
    for i in range(len(regs)):
        set_hw(i)
    for i, (x, pl) in enumerate(mems):
        storage[x] = list(words[i])

    def compare(what):
        for i, r in enumerate(case["regs"]):
            eq(got(i), [hwval(i)] * (1 if user else len(places[i])), what + ": hardware value of register %d" % i)
            for d in gplaces[i]:
                eq(sum(h.v if off < 0 else h.v << off for h, off, size in d), 0x5a5a5a5a5a5a5a5a & (1 << r["n"]) - 1, what + ": storage of the other kind")
            for m in models[i]:
                if m.spec["skip"]:
                    continue
                f = regs[i].fl[m.spec["name"]]
                eq((f.get_mirrored_value(), f.get()), (m.mir, m.des), "%s: mirrored, desired value of register %d %s (%s)" % (what, i, m.spec["name"], m.pol))
        for i, (x, pl) in enumerate(mems):
            if user:
                eq(storage[x], words[i], what + ": memory storage")
            else:
                for d in pl:
                    eq([sum(h[k].v if off < 0 else h[k].v << off for h, off, size in d) for k in range(len(words[i]))], words[i], what + ": memory storage")
    for ms in models:
        for m in ms:
            m.spec["skip"] = False

    def hw_write(i, v, what):
        """What a write leaves in the hardware."""
        for f, m in zip(case["regs"][i]["fields"], models[i]):
            mask = (1 << f["n"]) - 1
            cur[i][f["name"]] = written(f["pol"], cur[i][f["name"]], v >> f["lsb"] & mask, mask, m.once)
            m.once = True
            m.mir = m.des = cur[i][f["name"]]
            m.spec["skip"] = False
            st["nontriv"] += f["pol"] != "RW"
        rest[i] = 0

    async def op(o, what):
        kw = {"path": UVM_DEFAULT_PATH if case["deflt"] else UVM_BACKDOOR}
        status, val = [], []
        del ev[:]
        e0 = len(rep.errors())
        if o[0][0] in "mp" and o[0] != "mirror":
            x, pl = mems[o[1]]
            off, vals = o[2], o[3]
            spec = case["mems"][o[1]]
            st["acc"] += 1
            ow = owner[spec["sub"]] if user else ""
            if o[0] == "mhw" or (user and o[0] in ("peek", "poke")):
                words[o[1]][off] = vals[0]
                storage[x][off] = vals[0]
                put(pl, vals[0], spec["bits"], off)
                return
            want = []
            if o[0] == "poke":
                x.poke(status, off, vals[0])
                words[o[1]][off] = vals[0]
            elif o[0] == "peek":
                x.peek(status, off, val)
                eq(val, words[o[1]][off:off + 1], what + ": value")
            elif o[0] in ("mwrite", "mbwrite"):
                n = len(vals) if o[0] == "mbwrite" else 1
                if o[0] == "mwrite":
                    await x.write(status, off, vals[0], **kw)
                else:
                    await x.burst_write(status, off, list(vals), **kw)
                if spec["acc"] == "RW":
                    words[o[1]][off:off + n] = vals[:n]
                    want = bk_events(ow, "write")
            elif o[0] == "mread":
                await x.read(status, off, val, **kw)
                eq(val, words[o[1]][off:off + 1], what + ": value")
                want = bk_events(ow, "read")
            else:
                val = [0] * len(vals)
                await x.burst_read(status, off, val, **kw)
                eq(val, words[o[1]][off:off + len(vals)], what + ": values")
                want = bk_events(ow, "read")
            eq(status, [UVM_IS_OK], what + ": status")
            if user:
                eq(ev, want, what + ": back door run")
            st["nontriv"] += user or len(pl) > 1 or len(pl[0]) > 1
            eq(len(rep.errors()), e0, what + ": errors %r" % rep.errors()[e0:])
            return
        i = o[1]
        r, x, ms = case["regs"][i], regs[i], models[i]
        ow = owner[r["sub"]] if user else ""
        n = r["n"]
        if o[0] == "hw":
            f = r["fields"][o[3] % len(r["fields"])]
            cur[i][f["name"]] = o[2] & (1 << f["n"]) - 1
            set_hw(i)
            return
        if o[0] == "split":
            if user or len(places[i]) < 2:
                return
            h, off, size = places[i][1][o[3] % len(places[i][1])]
            keep = h.v
            h.v ^= 1
            await x.read(status, val, **kw)
            eq(status, [UVM_NOT_OK], what + ": status of a read of disagreeing paths")
            check(len(rep.errors()) > e0, "%s: disagreeing paths not reported", what)
            h.v = keep
            st["disagree"] += 1
            # a failed read leaves the mirror unspecified: start over
            for m in ms:
                m.spec["skip"] = True
            return
        st["nontriv"] += user or len(places[i]) > 1 or len(places[i][0]) > 1
        st["acc"] += 1
        events = []
        nerr = 0
        if o[0] == "write" or o[0] == "update":
            if o[0] == "update":
                for m in ms:
                    if m.spec["skip"] or m.spec["pol"] not in ("RW", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T", "WO"):
                        return
                f, m = r["fields"][o[3] % len(r["fields"])], ms[o[3] % len(ms)]
                sync = all(m_.mir == cur[i][m_.spec["name"]] for m_ in ms)
                if not sync:
                    return
                x.fl[f["name"]].set(o[2] & m.mask)
                m.set(o[2] & m.mask)
                need = m.des != m.mir
                await x.update(status, **kw)
                if need:
                    events = bk_events(ow, "read") + bk_events(ow, "write")
                    for f_, m_ in zip(r["fields"], ms):
                        cur[i][f_["name"]] = m_.mir = m_.des
                        m_.once = True
                    rest[i] = 0
            else:
                await x.write(status, o[2], **kw)
                events = bk_events(ow, "read") + bk_events(ow, "write")
                hw_write(i, o[2], what)
        else:
            exp = {m.spec["name"]: m.mir for m in ms}
            skip = any(m.spec["skip"] for m in ms)
            hv = 0
            events = bk_events(ow, "read")
            side = False
            bad = False
            for f, m in zip(r["fields"], ms):
                nm = f["name"]
                if f["pol"] in WRITE_ONLY:
                    m.spec["skip"] = True
                    continue
                hv |= cur[i][nm] << f["lsb"]
                bad |= exp[nm] != cur[i][nm]
                aft = after_read(f["pol"], cur[i][nm], m.mask)
                if aft != cur[i][nm]:
                    side = True
                    cur[i][nm] = aft
                m.mir = m.des = aft
                m.spec["skip"] = f["pol"].endswith(("RC", "RS"))
            if side:
                events = events + bk_events(ow, "write")
                rest[i] = 0
            chk = o[0] == "mirror" and o[2] & 1
            if o[0] == "read":
                await x.read(status, val, **kw)
                eq(val, [hv], what + ": value returned")
            else:
                await x.mirror(status, UVM_CHECK if chk else UVM_NO_CHECK, **kw)
            if not skip:
                eq(len(rep.errors()) - e0, int(bad and case["cor"]) + int(bad and bool(chk)), what + ": errors (mirror %r, hardware %#x)" % (exp, hv))
            e0 = len(rep.errors())
        eq(status, [UVM_IS_OK], what + ": status")
        eq(len(rep.errors()), e0, what + ": errors %r" % rep.errors()[e0:])
        if user:
            eq(ev, events, what + ": back door run")

    async def go():
        for k, o in enumerate(case["ops"]):
            what = "op %d %r" % (k, o)
            st["ops"] += 1
            await op(o, what)
            compare(what)

    async def nodoor():
        pass
    if case["mode"] == "none":
        # no back door: the front door is used instead, with a warning (there is none either: an error)
        for x in regs:
            check(not x.has_hdl_path(), "%s has an HDL path", x.get_full_name())
            check(x.get_backdoor() is None, "%s has a back door", x.get_full_name())
        for x, pl in mems:
            s, v = [], []
            x.peek(s, 0, v)
            eq((s, v), ([UVM_NOT_OK], []), "peek without back door")
            s = []
            x.poke(s, 0, 1)
            eq(s, [UVM_NOT_OK], "poke without back door")
        check(not rep.warnings(), "unexpected warning %r", rep.warnings()[:2])
        eq(len(rep.errors()), 2 * len(mems), "errors")
        return {"nontrivial": False}
    sim(go())
    check(not rep.warnings(), "unexpected warning %r", rep.warnings()[:2])
    return {"nontrivial": st["nontriv"] > 0, "ops": st["ops"], "accesses": st["acc"], "user": int(user), "disagreements": st["disagree"]}
