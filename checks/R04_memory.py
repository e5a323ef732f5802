from util import *
from regs import *

ID = "R04"
META = {
    "title": "Memory reads, writes and bursts move exactly the addressed words",
    "statement": "For every memory size, word width, map hierarchy, endianness and history, write/read/burst_write/burst_read of a memory issue exactly the beats of the addressed words, in order and in least-significant-first data order, as plain reads and writes; a word read is the word last written there, words not addressed keep their value, and concurrent accesses to different words do not disturb each other. Accesses beyond the end, bursts that do not fit (also those through a path narrower than a word) and accesses to an unmapped memory are refused with an error and UVM_NOT_OK without touching the bus; a bus error ends the access and its status. Address look-ups, access rights per map and the warnings about overlaps with registers or other memories follow the same address rules.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all memory geometries, address maps, access histories, burst sizes, bus errors and interleavings of threads on different words",
    "why": "Tests write and read back a few words of one 32-bit memory; widths, odd sizes, bursts, several map levels and failures are not exercised.",
    "files": ["src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_map.py"],
    "mech": [["UVMMem.write / read / burst_write / burst_read / Xcheck_accessX", "src/uvm/reg/uvm_mem.py"], ["UVMRegMap.do_bus_write / do_bus_read / get_physical_addresses", "src/uvm/reg/uvm_reg_map.py"]],
    "note": "Whole tests with a byte-addressed memory behind a simulated bus as the reference.",
}
RULE = "a multi-beat word, or a burst of several words, or a memory below a submap, was accessed"
N = (110, 9000)
ASSUMPTIONS = ["values fit the word", "all maps of one hierarchy are equally wide"]


def strategy():
    def fn(g):
        if g.b(1, 6):
            w = g.pick([4, 1, 2, 8])
            items = []
            for k in range(g.i(1, 4)):
                if g.b():
                    items.append({"kind": "mem", "size": g.pick([1, 2, 3, 8]), "nb": g.pick([4, 1, 2, 8, 3])})
                else:
                    items.append({"kind": "reg", "nb": g.pick([4, 1, 2, 8])})
                items[-1]["off"] = g.i(0, 24)
            return {"mode": "overlap", "w": w, "ba": g.b(), "endian": g.i(0, 1), "items": items}
        w = g.pick([4, 1, 2, 8])
        mems = []
        for _ in range(g.i(1, 2)):
            nb = g.pick([4, 4, 1, 2, 3, 5, 8])
            mems.append({"nb": nb, "bits": nb * 8 - g.pick([0, 0, 3, 7]), "size": g.pick([4, 1, 2, 3, 7, 16, 40]), "gap": g.pick([0, 0, 1, 9]),
                         "acc": "RW", "rights2": g.pick(["RW", "RO", "WO"]), "unmapped": g.b(1, 12)})
        one = g.b(3, 4)
        threads = []
        for _ in range(1 if one else 2):
            ops = []
            for _ in range(g.i(1, 8)):
                k = g.i(0, 9)
                m = g.i(0, len(mems) - 1)
                size = mems[m]["size"]
                off = g.i(0, size + (2 if g.b(1, 6) else -1))
                n = g.i(1, 4)
                if g.b(4, 5):
                    n = max(1, min(n, size - off))
                bits = mems[m]["bits"]
                name = ["write", "read", "write", "read", "bwrite", "bread", "bwrite", "bread", "write", "read"][k]
                ops.append([name, m, off, [g.bits(bits) for _ in range(n if name[0] == "b" else 1)], g.i(0, 5) if g.b(1, 8) else -1])
            threads.append(ops)
        return {"mode": "run", "w": w, "ba": g.b(2, 3), "endian": g.i(0, 3), "depth": g.i(0, 2), "base": g.pick([0, 0x100]), "second": g.b(1, 3), "soff": g.pick([0, 8, 64]),
                "mems": mems, "threads": threads, "rsp": g.b(1, 4), "delays": [g.pick([0, 0, 1, 2]) for _ in range(3)], "usemap": g.i(0, 2)}
    return gen(fn, 300)


def run(case):
    return (run_overlap if case["mode"] == "overlap" else run_mem)(case)


def run_overlap(case):
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN
    rep = Reports()
    w = case["w"]
    blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
    mp = blk.create_map("map", 0, w, [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN][case["endian"]], int(case["ba"]))
    mm = MapModel(w, case["endian"], case["ba"])
    spans, over = [], 0
    objs = []
    for k, it in enumerate(case["items"]):
        off = it["off"] * mm.step
        beats = -(-it["nb"] // w)
        if it["kind"] == "mem":
            x = UVMMem("mem%d" % k, it["size"], it["nb"] * 8)
            x.configure(blk)
            mp.add_mem(x, off)
            n = it["size"] * beats
        else:
            x = make_reg("r%d" % k, it["nb"] * 8, [{"name": "f", "lsb": 0, "n": it["nb"] * 8, "pol": "RW", "vol": 0, "reset": 0}])
            x.configure(blk)
            mp.add_reg(x, off)
            n = beats
        words = set(off + i * mm.step for i in range(n))
        over += any(words & s for s in spans)
        spans.append(words)
        objs.append(x)
    blk.lock_model()
    check(not rep.errors(), "unexpected error %r", rep.errors()[:2])
    eq(bool(rep.warnings()), over > 0, "overlap reported (%r)" % rep.warnings()[:2])
    return {"nontrivial": over > 0, "overlap": over > 0}


def run_mem(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO, UVM_IS_OK, UVM_NOT_OK)
    rep = Reports()
    w = case["w"]
    ENDIAN = [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO]
    fifo = case["endian"] >= 2
    one = len(case["threads"]) == 1
    st = {"nontriv": 0, "ops": 0, "refused": 0, "fail": -1, "n": 0, "failed": False}
    store = {}
    seen = []
    box = {}
    mask = (1 << 8 * w) - 1
    models = []

    def key(kind, addr):
        if not fifo:
            return addr
        # a FIFO: the beats of one word arrive at one address
        k = box.setdefault(("beat", addr), 0)
        box[("beat", addr)] = (k + 1) % box["nbeats"].get(addr, 1)
        return (addr, k)

    def dut(kind, addr, data, be):
        eq(be, (1 << w) - 1, "byte enables")
        seen.append((kind, addr))
        k = key(kind, addr)
        ok = st["fail"] != st["n"]
        st["n"] += 1
        if kind == "write":
            eq(data & mask, data, "bus data")
            if ok:
                store[k] = data
            return 0, ok
        return store.get(k, 0) | ~mask & (1 << 64) - 1 | 1 << 64, ok

    words = [[0] * m["size"] for m in case["mems"]]

    def addr_of(m, off):
        spec = case["mems"][m]
        mm = models[m]
        if fifo:
            n = -(-spec["nb"] // w)
            return mm["map"].phys(mm["off"] + off * n * mm["map"].step, spec["nb"])
        return mm["map"].phys(mm["off"] + off * -(-spec["nb"] // w) * mm["map"].step, spec["nb"])

    async def op(self, t, k, o):
        name, m, off, vals, fail = o
        what = "thread %d op %d %r" % (t, k, o)
        mem, spec = self.mems[m], case["mems"][m]
        beats = -(-spec["nb"] // w)
        n = len(vals)
        kw = {}
        if case["usemap"] == 1:
            kw["_map"] = models[m]["umap"]
        elif case["usemap"] == 2 or mem.get_n_maps() > 1:
            kw["_map"] = self.root
        refused = off >= spec["size"] or spec["unmapped"] or n > 1 and (off + n > spec["size"] or spec["bits"] > 8 * w)
        status, val = [], []
        e0, s0 = len(rep.errors()), len(seen)
        st["n"], st["fail"] = 0, fail if one and not refused and fail < beats * n else -1
        fail = st["fail"]
        if name == "write":
            await mem.write(status, off, vals[0], **kw)
        elif name == "read":
            await mem.read(status, off, val, **kw)
        elif name == "bwrite":
            arg = list(vals)
            await mem.burst_write(status, off, arg, **kw)
            eq(arg, vals, what + ": the caller's list")
        else:
            val = [0] * n
            await mem.burst_read(status, off, val, **kw)
            eq(len(val), n, what + ": number of words read")
        if refused:
            st["refused"] += 1
            eq(status, [UVM_NOT_OK], what + ": status of a refused access")
            if one:
                eq((len(rep.errors()) - e0, seen[s0:]), (1, []), what + ": errors, bus accesses of a refused access")
            return
        want = [("write" if "write" in name else "read", a) for i in range(n) for a in addr_of(m, off + i)]
        if fail >= 0:
            want = want[:fail + 1]
            st["failed"] = True
        if one:
            eq(seen[s0:], want, what + ": bus accesses")
        eq(status, [UVM_NOT_OK if fail >= 0 else UVM_IS_OK], what + ": status")
        if fail >= 0:
            # what was written before the error stays; resynchronise the reference
            for a in list(box):
                if isinstance(a, tuple):
                    box[a] = 0
            if "write" in name:
                for i in range(n):
                    words[m][off + i] = peek(m, off + i)
        elif "write" in name:
            words[m][off:off + n] = vals
            for i in range(n):
                eq(peek(m, off + i), vals[i], what + ": word %d in the DUT" % (off + i))
        else:
            eq([v & ((1 << spec["bits"]) - 1) for v in val], words[m][off:off + n], what + ": words read")
        if n > 1 or beats > 1 or case["depth"]:
            st["nontriv"] += 1
        st["ops"] += 1
        st["fail"] = -1

    def peek(m, off):
        v = 0
        for i, a in enumerate(addr_of(m, off)):
            v |= store.get((a, i) if fifo else a, 0) << 8 * w * i
        return v

    async def thread(self, t, ops):
        for k, o in enumerate(ops):
            o = list(o)
            if not one:        # disjoint words: odd / even halves
                half = case["mems"][o[1]]["size"] // 2
                if o[2] + len(o[3]) > half:
                    o[3] = o[3][:1]
                    if half == 0 and t:
                        continue
                    o[2] = o[2] % max(half, 1)
                o[2] += t * half
                o[4] = -1
                if fifo:
                    o[3] = o[3][:1]
            await op(self, t, k, o)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        for m, spec in enumerate(case["mems"]):
            mem = self.mems[m]
            eq((mem.get_size(), mem.get_n_bits(), mem.get_n_bytes()), (spec["size"], spec["bits"], spec["nb"]), "geometry")
            if case["second"]:
                eq(mem.get_rights(self.map2), spec["rights2"], "rights in the second map")
                eq(mem.get_access(self.map2), {"RW": "RW", "RO": "RO", "WO": "WO"}[spec["rights2"]], "access in the second map")
            eq(mem.get_access(self.root), "RW", "access in the first map")
        ts = [cocotb.start_soon(thread(self, t, ops)) for t, ops in enumerate(case["threads"])]
        for t in ts:
            await t
        if not st["failed"]:
            for m, spec in enumerate(case["mems"]):
                if not spec["unmapped"]:
                    eq([peek(m, i) for i in range(spec["size"])], words[m], "final content of memory %d" % m)
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr, self.ad, self.log, self.conn = bus_env(self, dut, case["rsp"], case["delays"])
        chain = [UVMRegBlock("top", UVM_NO_COVERAGE)]
        for d in range(case["depth"]):
            b = UVMRegBlock("b%d" % d, UVM_NO_COVERAGE)
            b.configure(chain[-1])
            chain.append(b)
        maps, mms = [], []
        for d, b in enumerate(chain):
            mp = b.create_map("map", case["base"] if d == 0 else 0, w, ENDIAN[case["endian"]], int(case["ba"]))
            mm = MapModel(w, case["endian"], case["ba"], mms[-1] if mms else None, case["base"] if d == 0 else 0)
            if d:
                mm.off = case["soff"] * mm.step
                maps[-1].add_submap(mp, mm.off)
            maps.append(mp)
            mms.append(mm)
        if case["second"]:
            self.map2 = chain[-1].create_map("map2", 0, w, ENDIAN[0], int(case["ba"]))
        self.mems = []
        box["nbeats"] = {}
        for k, m in enumerate(case["mems"]):
            x = UVMMem("mem%d" % k, m["size"], m["bits"], m["acc"])
            x.configure(chain[-1])
            beats = -(-m["nb"] // w)
            off = mms[-1].alloc(m["size"] * beats * mms[-1].step, m["gap"])
            maps[-1].add_mem(x, off, "RW", int(m["unmapped"]))
            if case["second"]:
                self.map2.add_mem(x, k * 4096, m["rights2"])
            models.append({"map": mms[-1], "off": off, "umap": maps[-1]})
            self.mems.append(x)
        self.root = maps[0]
        chain[0].lock_model()
        if fifo:
            for k, m in enumerate(case["mems"]):
                for i in range(m["size"]):
                    for a in addr_of(k, i):
                        box["nbeats"][a] = -(-m["nb"] // w)

    def connect(self, phase):
        self.conn()
        self.root.set_sequencer(self.sqr, self.ad)
    top = comp_class("R04Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    check(not rep.warnings(), "unexpected warning %r", rep.warnings()[:2])
    return {"nontrivial": st["nontriv"] > 0, "ops": st["ops"], "refused": st["refused"]}
