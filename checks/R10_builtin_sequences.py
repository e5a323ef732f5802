import re
from util import *
from regs import *

ID = "R10"
META = {
    "title": "Built-in register tests test everything and blame only what is broken",
    "statement": "For every block tree and every built-in sequence (hardware reset, bit bash, register access, memory walk, memory access, all of them or one object's), on a conforming device the sequence ends without an error and has really tested every register or memory of the block and its sub-blocks through every map: every reset value read and nothing written, every comparable bit written both ways and read back, every memory word written and read, front door checked against back door. It first resets the device once through reset_blk and the model. What a NO_REG_TESTS, NO_MEM_TESTS or NO_..._TEST resource excludes is not accessed at all, and volatile fields are not judged. A wrong reset value, a stuck bit, a wrong HDL path, aliased memory words or a failing bus access in a tested object leads to an error naming that object and no other; in an excluded object it leads to none.",
    "over": ["inputs", "faults"],
    "quant": "all block trees, register layouts and policies, memories, map sets and rights, exclusions, sequences, and single faults of the device",
    "why": "The examples run the sequences on conforming devices of one shape and never check what was tested, nor that a broken device is found.",
    "files": ["src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py", "src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py", "src/uvm/reg/sequences/uvm_reg_access_seq.py",
              "src/uvm/reg/sequences/uvm_mem_walk_seq.py", "src/uvm/reg/sequences/uvm_mem_access_seq.py", "src/uvm/reg/sequences/uvm_reg_mem_built_in_seq.py"],
    "mech": [["UVMRegHWResetSeq.do_block", "src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py"], ["UVMRegSingleBitBashSeq.body / bash_kth_bit", "src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py"],
             ["UVMRegSingleAccessSeq.body, UVMRegMemAccessSeq.body", "src/uvm/reg/sequences/uvm_reg_access_seq.py"], ["UVMMemSingleWalkSeq.body", "src/uvm/reg/sequences/uvm_mem_walk_seq.py"],
             ["UVMMemSingleAccessSeq.body", "src/uvm/reg/sequences/uvm_mem_access_seq.py"], ["UVMRegMemBuiltInSeq.body", "src/uvm/reg/sequences/uvm_reg_mem_built_in_seq.py"]],
    "note": "Whole tests on a simulated device with up to two buses and an HDL hierarchy; the accesses and reports are compared with what the tree, exclusions and fault demand.",
}
RULE = "a nested block, an exclusion or a fault in a tested object"
N = (70, 10000)
ASSUMPTIONS = ["objects below an excluded block (other than the one the sequence is started on) may be tested or not", "how often an object is tested is not prescribed",
               "memories are RW", "register access tests use policies without read side effects, and skip registers read-only in some map", "write-only fields are in maps with full rights", "a stuck bit is in an RW field; in a memory walk it differs from the walking pattern"]
ACC = ["RW", "RW", "RW", "RO", "WC", "WS", "W1C", "W1S", "W0C", "W0S", "W1T", "W0T", "WO"]
SEQS = ["hw", "bash", "racc", "walk", "macc", "both", "all"]
EXCL = {"hw": ["NO_REG_TESTS", "NO_REG_HW_RESET_TEST"], "bash": ["NO_REG_TESTS", "NO_REG_BIT_BASH_TEST"], "racc": ["NO_REG_TESTS", "NO_REG_ACCESS_TEST"],
        "walk": ["NO_REG_TESTS", "NO_MEM_TESTS", "NO_MEM_WALK_TEST"], "macc": ["NO_REG_TESTS", "NO_MEM_TESTS", "NO_MEM_ACCESS_TEST"]}
BITS = {"hw": 1, "bash": 2, "racc": 4, "macc": 8, "walk": 32}


def strategy():
    def fn(g):
        seq = g.pick(SEQS)
        nmaps = g.pick([1, 2])
        pols = POLICIES if seq in ("hw", "bash") else ACC
        budget = [g.pick([1, 0, 2, 3])]

        def block(depth):
            b = {"regs": [], "mems": [], "subs": []}
            for _ in range(g.i(1 if depth == 0 else 0, 2)):
                n = g.pick([8, 16, 32, 8])
                fs = gen_fields(g, n, pols, maxf=3)
                for f in fs:
                    f["vol"] = int(g.b(1, 6))
                b["regs"].append({"n": n, "fields": fs, "maps": [g.pick(["RW", "RW", "RW", None, "RO"]) for _ in range(nmaps)], "hdl": g.b(5, 6)})
            for _ in range(g.pick([1, 0, 1, 2]) if seq not in ("hw", "bash", "racc") else 0):
                b["mems"].append({"n": g.pick([8, 32, 5, 1, 40, 64]), "size": g.pick([3, 1, 2, 6]), "maps": [g.pick(["RW", "RW", None]) for _ in range(nmaps)], "hdl": g.b(5, 6)})
            while budget[0] > 0 and depth < 3 and g.b(5, 6):
                budget[0] -= 1
                b["subs"].append(block(depth + 1))
            return b
        top = block(0)
        names = sorted({x for s in (list(EXCL) if seq in ("all", "both") else [seq]) for x in EXCL[s]} | {"NO_MEM_ACCESS_TEST", "NO_REG_HW_RESET_TEST"})
        excl = [[g.pick(["reg", "mem", "blk", "reg", "mem", "below"]), g.i(0, 7), g.pick(names)] for _ in range(g.pick([0, 0, 1, 2]))]
        fault = None
        if g.b(1, 2):
            fault = {"kind": g.pick(["stuck", "reset", "bus", "hdl", "alias"]), "obj": g.i(0, 7), "bit": g.i(0, 63), "val": g.i(0, 1), "nth": g.i(0, 5), "word": g.i(0, 5)}
        return {"seq": seq, "nmaps": nmaps, "top": top, "excl": excl, "fault": fault, "single": g.b(1, 6), "on": g.i(0, 3) if g.b(1, 4) else 0, "obj": g.i(0, 7), "tests": g.pick([255, 255, g.i(0, 63)]),
                "delays": [g.pick([0, 0, 0, 1]) for _ in range(2)], "rsp": g.b(1, 5), "sim": g.pick(["Icarus Verilog", "Verilator"]), "junk": g.bits(32)}
    return gen(fn, 420)


class Node:
    pass


def run(case):
    from uvm import UVMComponent, uvm_object_utils, UVMCoreService
    from uvm.base.uvm_resource_db import UVMResourceDb
    from uvm.dpi.uvm_hdl import uvm_hdl
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN
    from uvm.reg import sequences as S
    rep = Reports()
    seq, fault = case["seq"], case["fault"]
    blks, regs, mems = [], [], []
    trace = []                      # (object full name, map, kind, front-door data / word)
    resets = []
    box = {"hits": 0, "fired": False, "stuck": None, "alias": None, "bus": None, "seq": None}

    class RegStore:
        """Storage of a register; a stuck bit affects everything stored."""

        def __init__(self, rec):
            self.rec = rec
            self.clear()

        def clear(self):
            self.d = DutReg(self.rec["spec"]["fields"], self.rec["spec"]["n"])
            self.d.junk = case["junk"]
            if self.rec.get("badreset"):
                n, bit = self.rec["badreset"]
                self.d.v[n] ^= 1 << bit
            self.stick()

        def stick(self):
            if box["stuck"] and box["stuck"][0] is self.rec:
                _, n, bit, val = box["stuck"]
                self.d.v[n] = self.d.v[n] & ~(1 << bit) | val << bit

        def write(self, v, rights):
            self.d.write(v, rights)
            self.stick()

        def read(self, rights):
            v = self.d.read(rights)
            self.stick()
            for f in self.d.fields:
                if f["vol"]:
                    v ^= (case["junk"] & f["mask"]) << f["lsb"]
            return v
        # as an HDL object

        @property
        def value(self):
            trace.append((self.rec["full"], None, "peek", 0))
            v = 0
            for f in self.d.fields:
                v |= (self.d.v[f["name"]] ^ (case["junk"] & f["mask"] if f["vol"] else 0)) << f["lsb"]
            return v

        @value.setter
        def value(self, v):
            trace.append((self.rec["full"], None, "poke", 0))
            for f in self.d.fields:
                self.d.v[f["name"]] = v >> f["lsb"] & f["mask"]
            self.stick()

        def __int__(self):
            return self.value

    class Dead:
        """Something else the HDL path leads to."""

        def __init__(self, v):
            self.value = v

        def __int__(self):
            return self.value

    class Word:
        def __init__(self, rec, k):
            self.rec, self.k, self.v = rec, k, 0

        def get(self):
            if box["stuck"] and box["stuck"][0] is self.rec and box["stuck"][1] == self.k:
                _, _, bit, val = box["stuck"]
                return self.v & ~(1 << bit) | val << bit
            return self.v

        @property
        def value(self):
            trace.append((self.rec["full"], None, "peek", self.k))
            return self.get()

        @value.setter
        def value(self, v):
            trace.append((self.rec["full"], None, "poke", self.k))
            self.v = v & (1 << self.rec["spec"]["n"]) - 1

        def __int__(self):
            return self.value

    def make(spec, parent, name):
        full = name if parent is None else parent["full"] + "." + name
        rec = {"full": full, "parent": parent, "b": UVMRegBlock(name, UVM_NO_COVERAGE), "regs": [], "mems": [], "subs": [], "node": Node()}
        n = len(blks)
        blks.append(rec)
        rec["b"].configure(parent["b"] if parent else None, "n%d" % n)
        setattr(parent["node"] if parent else box["design"], "n%d" % n, rec["node"])
        rec["base"] = 0x10000 * n
        rec["maps"] = [rec["b"].create_map("m%d" % k, 0, 4, UVM_LITTLE_ENDIAN) for k in range(case["nmaps"])]
        at = 0
        for k, s in enumerate(spec["regs"]):
            nm = "r%d" % k
            x = make_reg(nm, s["n"], s["fields"])
            r = {"kind": "reg", "full": full + "." + nm, "x": x, "spec": s, "blk": rec, "at": rec["base"] + at, "name": nm, "rights": list(s["maps"])}
            x.configure(rec["b"], None, "h_" + nm if s["hdl"] else "")
            if not any(r["rights"]):
                r["rights"][0] = "RW"
            if any(f["pol"] in WRITE_ONLY for f in s["fields"]):    # not accessible at all in a read-only map
                r["rights"] = [rt and "RW" for rt in r["rights"]]
            for j, rt in enumerate(r["rights"]):
                if rt:
                    rec["maps"][j].add_reg(x, at, rt)
            at += 4
            rec["regs"].append(r)
            regs.append(r)
        at = 0x1000
        for k, s in enumerate(spec["mems"]):
            nm = "mem%d" % k
            x = UVMMem(nm, s["size"], s["n"], "RW")
            x.configure(rec["b"], "h_" + nm if s["hdl"] else "")
            r = {"kind": "mem", "full": full + "." + nm, "x": x, "spec": s, "blk": rec, "at": rec["base"] + at, "name": nm, "rights": list(s["maps"])}
            if not any(r["rights"]):
                r["rights"][0] = "RW"
            for j, rt in enumerate(r["rights"]):
                if rt:
                    rec["maps"][j].add_mem(x, at, rt)
            at += 0x1000
            rec["mems"].append(r)
            mems.append(r)
        for k, s in enumerate(spec["subs"]):
            rec["subs"].append(make(s, rec, "b%d" % k))
            for j in range(case["nmaps"]):
                rec["maps"][j].add_submap(rec["subs"][-1]["maps"][j], rec["subs"][-1]["base"] - rec["base"])
        return rec

    def plug():
        """The device; after the fault has been chosen."""
        for r in regs:
            r["store"] = RegStore(r)
            if r["spec"]["hdl"]:
                setattr(r["blk"]["node"], "h_" + r["name"], Dead(r["store"].value) if r.get("dead") else r["store"])
        for r in mems:
            r["words"] = [Word(r, k) for k in range(r["spec"]["size"])]
            if box["alias"] and box["alias"][0] is r:
                a = box["alias"][1]
                r["words"][a + 1] = r["words"][a]
            ws = [Dead(0) for _ in r["words"]] if r.get("dead") else r["words"]
            if case["sim"] == "Verilator":
                setattr(r["blk"]["node"], "h_" + r["name"], ws)
            else:
                for k, w in enumerate(ws):
                    setattr(r["blk"]["node"], "h_%s[%d]" % (r["name"], k), w)

    def under(rec):
        return [rec] + [y for s in rec["subs"] for y in under(s)]

    def dut(j):
        def access(kind, addr, data, be):
            for r in regs:
                if r["at"] == addr and r["rights"][j]:
                    trace.append((r["full"], j, kind, data if kind == "write" else 0))
                    if bus_fault(r):
                        return 0, False
                    if kind == "write":
                        r["store"].write(data, r["rights"][j])
                        return 0, True
                    return r["store"].read(r["rights"][j]), True
            for r in mems:
                per = 4 * -(-r["spec"]["n"] // 32)
                if r["at"] <= addr < r["at"] + per * r["spec"]["size"] and r["rights"][j]:
                    k, piece = (addr - r["at"]) // per, (addr - r["at"]) % per // 4
                    trace.append((r["full"], j, kind, k))
                    if bus_fault(r):
                        return 0, False
                    w = r["words"][k]
                    if kind == "write":
                        m = 0xFFFFFFFF << 32 * piece
                        w.v = (w.v & ~m | data << 32 * piece) & (1 << r["spec"]["n"]) - 1
                        return 0, True
                    return w.get() >> 32 * piece & 0xFFFFFFFF, True
            check(False, "%s of address %#x in map %d, where there is nothing", kind, addr, j)
        return access

    def bus_fault(r):
        if box["bus"] and box["bus"][0] is r:
            box["bus"][1] -= 1
            if box["bus"][1] == -1:
                box["fired"] = True
                return True
        return False

    # which sequences run, and on which objects
    parts = {"both": ["racc", "macc"], "all": [s for s in ("hw", "bash", "racc", "macc", "walk") if case["tests"] & BITS[s]]}.get(seq, [seq])
    fields = lambda r: [FieldState(f) for f in r["spec"]["fields"]]

    def bits_seen(r, j):
        """Comparable bits of a register in map j."""
        return [b for f in r["spec"]["fields"] if not f["vol"] and restricted(f["pol"], r["rights"][j]) not in WRITE_ONLY + ("NOACCESS",) for b in range(f["lsb"], f["lsb"] + f["n"])]

    def rw_bits(r, j):
        return [(f["name"], f["lsb"], b) for f in r["spec"]["fields"] if not f["vol"] and f["pol"] == "RW" and r["rights"][j] == "RW" for b in range(f["n"])]

    def testable(part, r):
        """Does the sequence test this kind of object?"""
        if (r["kind"] == "reg") != (part in ("hw", "bash", "racc")):
            return False
        if part in ("racc", "macc") and not r["spec"]["hdl"]:
            return False
        for rt in r["rights"] if part == "racc" else []:
            pols = {restricted(f["pol"], rt) for f in r["spec"]["fields"]} if rt else set()
            if pols == {"RO"} or "NOACCESS" in pols:        # documented: skipped with a warning
                return False
        return True

    box["design"] = Node()
    root = make(case["top"], None, "top")
    target = blks[case["on"] % len(blks)]
    single = None
    if case["single"] and seq in ("bash", "racc", "walk", "macc"):
        c = [r for r in (regs if seq in ("bash", "racc") else mems) if testable(seq, r)]
        if c:
            single = c[case["obj"] % len(c)]
    # exclusions
    ex = {}                         # resource -> set of full names
    excl_used = []
    for what, k, name in case["excl"]:
        pool = {"reg": regs, "mem": mems, "blk": blks, "below": blks}[what]
        if not pool:
            continue
        o = pool[k % len(pool)]
        excl_used.append(("REG::" + o["full"] + (".*" if what == "below" else ""), name))
        if what == "below":
            names = [y["full"] for y in under(o)[1:]] + [r["full"] for y in under(o) for r in y["regs"] + y["mems"]]
        else:
            names = [o["full"]]
        ex.setdefault(name, set()).update(names)

    def off(full, part, root_only=False):
        names = EXCL[part]
        return any(full in ex.get(n, ()) for n in names)

    def verdict(part, r):
        """must: is tested, no: is not, None: either."""
        if not testable(part, r):
            return "no"
        if single is not None:
            return "must" if r is single and not off(r["full"], part) else "no"
        if r["blk"] not in under(target) or off(r["full"], part) or off(r["blk"]["full"], part) or off(target["full"], part):
            return "no"
        if seq == "both" and (off(target["full"], "racc") if part == "racc" else off(target["full"], "macc")):
            return "no"
        b = r["blk"]
        while b is not target:
            b = b["parent"]
            if off(b["full"], part):
                return None
        return "must"

    # the fault: which object must be blamed
    bad = must_find = None
    may_find = True
    if fault:
        pool = [r for r in regs + mems if any(testable(p, r) for p in parts)] or regs + mems
        r = pool[fault["obj"] % len(pool)]
        kind = fault["kind"]
        vs = {p: verdict(p, r) for p in parts}
        must = {p for p, v in vs.items() if v == "must"}
        maps = [j for j, rt in enumerate(r["rights"]) if rt]
        if kind == "bus":
            box["bus"] = [r, fault["nth"]]
            bad, must_find = r, "if fired"
        elif kind == "reset" and r["kind"] == "reg":
            c = [(f["name"], b) for f in r["spec"]["fields"] if not f["vol"] and any(restricted(f["pol"], r["rights"][j]) not in WRITE_ONLY + ("NOACCESS",) for j in maps) for b in range(f["n"])]
            if c:
                # detected by the reset test; the others may notice
                r["badreset"] = c[fault["bit"] % len(c)]
                bad, must_find = r, bool(must & {"hw"}) and r["rights"][maps[0]] is not None
                f = next(f for f in r["spec"]["fields"] if f["name"] == r["badreset"][0])
                first = maps[0]
                if restricted(f["pol"], r["rights"][first]) in WRITE_ONLY + ("NOACCESS",):
                    must_find = must_find and restricted(f["pol"], r["rights"][maps[-1]]) not in WRITE_ONLY + ("NOACCESS",)
        elif kind == "stuck" and r["kind"] == "reg":
            c = [x for j in maps for x in rw_bits(r, j)]
            if c:
                n, _, b = c[fault["bit"] % len(c)]
                box["stuck"] = (r, n, b, fault["val"])
                bad, must_find = r, bool(must & {"bash", "racc"})
        elif kind == "stuck":
            k, n = fault["word"] % r["spec"]["size"], r["spec"]["n"]
            b = fault["bit"] % n
            box["stuck"] = (r, k, b, (k >> b & 1) if "macc" not in parts else fault["val"])
            bad, must_find = r, bool(must & {"walk", "macc"}) if "macc" not in parts else "macc" in must
        elif kind == "alias" and r["kind"] == "mem" and r["spec"]["size"] > 1:
            k = fault["word"] % (r["spec"]["size"] - 1)
            box["alias"] = (r, k)
            bad, must_find = r, "walk" in must
        elif kind == "hdl" and r["spec"]["hdl"]:
            r["dead"] = True
            bad = r
            if r["kind"] == "mem":
                must_find = "macc" in must
            else:
                must_find = "racc" in must and any(rw_bits(r, j) for j in maps)
        if bad is not None and all(v == "no" for v in vs.values()):
            may_find = False
            must_find = False
    plug()
    uvm_hdl.set_dut(box["design"])
    uvm_hdl.SIM_NAME = case["sim"]

    def reset_blk(self, blk):
        resets.append((type(self).__mro__[1].__name__, blk, len(trace)))
        for r in regs:
            r["store"].clear()

    names = {"hw": "UVMRegHWResetSeq", "bash": "UVMRegBitBashSeq", "racc": "UVMRegAccessSeq", "walk": "UVMMemWalkSeq", "macc": "UVMMemAccessSeq", "both": "UVMRegMemAccessSeq", "all": "UVMRegMemBuiltInSeq"}
    mine = {}
    for k, nm in names.items():
        if k == "all":
            mine[k] = S.UVMRegMemBuiltInSeq
            continue

        async def rb(self, blk):
            reset_blk(self, blk)
        c = type("My" + nm, (getattr(S, nm),), {"reset_blk": rb, "__init__": lambda self, name="", base=getattr(S, nm): base.__init__(self, name)})
        uvm_object_utils(c)
        mine[k] = c
    if seq == "all":
        for k in ("hw", "bash", "racc", "walk", "macc"):
            UVMCoreService.get().get_factory().set_type_override_by_type(getattr(S, names[k]).get_type(), mine[k].get_type())

    async def run_phase(self, phase):
        phase.raise_objection(self)
        for sc, nm in excl_used:
            UVMResourceDb.set(sc, nm, 1, self)
        root["b"].lock_model()
        root["b"].reset()
        for j, (sqr, ad, _, _) in enumerate(self.bus):
            root["maps"][j].set_sequencer(sqr, ad)
            root["maps"][j].set_auto_predict(True)
            root["maps"][j].set_check_on_read(False)
        if single is not None:
            s = {"bash": S.UVMRegSingleBitBashSeq, "racc": S.UVMRegSingleAccessSeq, "walk": S.UVMMemSingleWalkSeq, "macc": S.UVMMemSingleAccessSeq}[seq]("s")
            if single["kind"] == "reg":
                s.rg = single["x"]
            else:
                s.mem = single["x"]
        else:
            s = mine[seq]("s")
            s.model = target["b"]
            if seq == "all":
                s.tests = case["tests"]
        del trace[:]
        await s.start(None)
        box["done"] = True
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.bus = [bus_env(self, dut(j), case["rsp"], case["delays"], "p%d" % j) for j in range(case["nmaps"])]

    def connect(self, phase):
        for b in self.bus:
            b[3]()
    uvm_run(comp_class("R10Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase}))
    check(box.get("done"), "the sequence did not end: %r", rep.errors()[:3])

    # reports
    errs = [m[2] for m in rep.errors()]
    what = "%s%s on %s, fault %r, exclusions %r" % (seq, "" if single is None else " of " + single["full"], target["full"], fault and (fault, bad and bad["full"]), excl_used)
    blames = lambda r, m: re.search(r"(?<![\w.])" + re.escape(r["full"]) + r"(?!\w)", m)
    for m in errs:
        check(bad is not None and may_find, "%s: error on a conforming or excluded device: %s", what, m)
        check(not any(blames(r, m) for r in regs + mems if r is not bad), "%s: error blames another object: %s", what, m)
    if must_find == "if fired":
        must_find = box["fired"]
    if must_find:
        check(any(blames(bad, m) for m in errs), "%s: %s is not reported: %r", what, bad["full"], errs[:3])
    # coverage of the tests
    seen = {}
    for full, j, kind, d in trace:
        seen.setdefault(full, {}).setdefault((j, kind), []).append(d)
    vd = {(p, r["full"]): verdict(p, r) for p in parts for r in regs + mems}
    for r in regs + mems:
        acc = seen.get(r["full"], {})
        if all(vd[p, r["full"]] == "no" for p in parts):
            check(not acc, "%s: %s was accessed: %r", what, r["full"], sorted(acc, key=str))
        if all(vd[p, r["full"]] == "no" for p in parts if p != "hw"):
            check(not any(k == "write" for _, k in acc), "%s: %s was written", what, r["full"])
        if all(vd[p, r["full"]] == "no" for p in parts if p in ("racc", "macc")):
            check(not any(j is None for j, _ in acc), "%s: the back door of %s was used", what, r["full"])
        if box["fired"] and r is bad:
            continue
        for p in parts:
            if vd[p, r["full"]] != "must":
                continue
            for j, rt in enumerate(r["rights"]):
                if not rt:
                    continue
                rd, wr = acc.get((j, "read"), []), acc.get((j, "write"), [])
                if p == "hw":
                    check(rd, "%s: %s was not read through map %d", what, r["full"], j)
                elif p == "bash":
                    bits = bits_seen(r, j)
                    check(len(rd) >= 2 * len(bits) and len(wr) >= 2 * len(bits), "%s: %d comparable bits of %s in map %d: %d writes, %d reads", what, len(bits), r["full"], j, len(wr), len(rd))
                    for n, lsb, b in rw_bits(r, j) if r is not bad else []:
                        eq({d >> lsb + b & 1 for d in wr}, {0, 1}, "%s: values written to bit %d of %s in map %d" % (what, lsb + b, r["full"], j))
                if p == "racc":
                    check(rd and wr and acc.get((None, "peek")) or r.get("dead"), "%s: accesses of %s in map %d: %r", what, r["full"], j, sorted(acc, key=str))
                if p in ("walk", "macc"):
                    allw = set(range(r["spec"]["size"]))
                    eq((set(rd), set(wr)), (allw, allw), "%s: words of %s read, written through map %d" % (what, r["full"], j))
                if p == "macc" and not r.get("dead") and not (box["alias"] and box["alias"][0] is r):
                    eq((set(acc[None, "peek"]), set(acc[None, "poke"])), (allw, allw), "%s: words of %s read, written through the back door" % (what, r["full"]))
    if single is None:
        if seq != "all" and seq != "both":
            eq([(n, b is target["b"], t) for n, b, t in resets], [(names[seq], True, 0)], what + ": calls of reset_blk")
        elif seq == "all":
            order = [n for n, b, t in resets]
            need = {names[p] for p in parts if any(vd[p, r["full"]] == "must" for r in regs + mems)}
            check(need <= set(order) <= {names[p] for p in parts} and len(set(order)) == len(order) and all(b is target["b"] for _, b, _ in resets), "%s: calls of reset_blk %r", what, order)
    nt = len({r["blk"]["full"] for r in regs + mems for p in parts if vd[p, r["full"]] == "must"}) > 1 or bool(excl_used) or bool(bad and any(v == "must" for v in (vd[p, bad["full"]] for p in parts)))
    return {"nontrivial": nt, "accesses": len(trace), "faults": int(bad is not None), "found": int(bool(errs))}
