from util import *

ID = "A01"
META = {
    "title": "In-order comparators pair the k-th before with the k-th after item",
    "statement": "For every history of items written to the two exports of an in-order comparator (built-in, class, custom policies, or algorithmic with a transformer), the k-th item of one side is compared with the k-th of the other exactly once, as soon as both are there. It counts a match or a mismatch as their comparison says, reports exactly the mismatches as errors, and publishes one pair (first = after item, second = before item) in order; flush clears the counts only. Pairs compare, copy and print by both of their members.",
    "over": ["histories", "schedules"],
    "quant": "all interleavings and timings of before and after items of built-in and class types, comparison policies and transformers, flushes, several comparators at once, and surplus items on either side",
    "why": "The tests run one comparator with strictly alternating items.",
    "files": ["src/uvm/comps/uvm_in_order_comparator.py", "src/uvm/comps/uvm_algorithmic_comparator.py", "src/uvm/comps/uvm_pair.py", "src/uvm/comps/uvm_policies.py"],
    "mech": [["UVMInOrderComparator.run_phase / flush", "src/uvm/comps/uvm_in_order_comparator.py"], ["UVMAlgorithmicComparator.write", "src/uvm/comps/uvm_algorithmic_comparator.py"], ["UVMClassPair / UVMBuiltInPair", "src/uvm/comps/uvm_pair.py"]],
    "note": "Whole tests with random write schedules against two queues.",
}
RULE = "a side was ahead of the other by two or more items, and both matches and mismatches occurred"
N = (90, 14000)
VALS = [0, 1, 2, 5, "a", "b{}", "%d", (1, 2), (1, 3)]


def strategy():
    return gen(lambda g: {"kinds": g.some(1, 3, lambda: g.pick(["int", "class", "alg", "custom", "customclass"])),
                          "ops": g.some(2, 30, lambda: [g.pick([0, 0, 0, 1, 3]), g.i(0, 2), g.pick("babababaf"), g.pick([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8])]),
                          "pairs": g.some(0, 4, lambda: [g.i(0, 2), g.i(0, 2), g.i(0, 2), g.i(0, 2)])}, 200)


def run(case):
    from uvm import UVMComponent, UVMObject, UVMTest
    from uvm.comps.uvm_algorithmic_comparator import UVMAlgorithmicComparator
    from uvm.comps.uvm_in_order_comparator import UVMInOrderBuiltInComparator, UVMInOrderClassComparator, UVMInOrderComparator
    from uvm.comps.uvm_pair import UVMBuiltInPair, UVMClassPair
    from uvm.comps.uvm_policies import UVMBuiltInConverter
    from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp, UVMAnalysisPort
    from uvm.base.uvm_object_globals import UVM_DEFAULT
    from uvm.base.sv import sv
    from uvm.macros.uvm_object_defines import (uvm_component_utils, uvm_field_int, uvm_field_string, uvm_object_utils_begin, uvm_object_utils_end)
    from cocotb.triggers import Timer
    rep = Reports()
    st = {"matches": 0, "mismatches": 0, "ahead": 0, "flushes": 0}

    class Obj(UVMObject):
        def __init__(self, name="obj", v=0):
            super().__init__(name)
            self.i, self.s = v % 3, "xy"[v // 3 % 2]

        def convert2string(self):
            return "O%d%s" % (self.i, self.s)
    uvm_object_utils_begin(Obj)
    uvm_field_int("i", UVM_DEFAULT)
    uvm_field_string("s", UVM_DEFAULT)
    uvm_object_utils_end(Obj)

    class Mod2:                                  # compares integers modulo 2, result 0 or 1
        @classmethod
        def comp(cls, a, b):
            return int(a % 2 == b % 2)

    class SameI:
        @classmethod
        def comp(cls, a, b):
            return int(a.i == b.i)

    class Trans:
        def transform(self, b):
            return Obj("t", b * 2 % 6)
    kinds = case["kinds"]
    comps, aps, imps = [], [], []
    got = [[] for _ in kinds]
    qs = [([], []) for _ in kinds]
    want = [[] for _ in kinds]
    counts = [[0, 0] for _ in kinds]
    errs, infos = [], []

    class Sink(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.imp = UVMAnalysisImp("imp", self)

        def write(self, p):
            got[self.k].append((p.first, p.second, sv.time()))

    class Top(UVMTest):
        def build_phase(self, phase):
            super().build_phase(phase)
            for k, kind in enumerate(kinds):
                n = "cmp%d" % k
                if kind == "alg":
                    c = UVMAlgorithmicComparator(n, self, Trans())
                elif kind == "class":
                    c = UVMInOrderClassComparator(n, self)
                elif kind == "int":
                    c = UVMInOrderBuiltInComparator(n, self)
                else:
                    c = UVMInOrderComparator(n, self)
                    if kind == "custom":
                        c.CompType = Mod2
                    else:
                        c.CompType, c.PairType = SameI, UVMClassPair
                comps.append(c)
                aps.append((UVMAnalysisPort("b%d" % k, self), UVMAnalysisPort("a%d" % k, self)))
                imps.append(Sink("s%d" % k, self))
                imps[-1].k = k

        def connect_phase(self, phase):
            for k, c in enumerate(comps):
                aps[k][0].connect(c.before_export)
                aps[k][1].connect(c.after_export)
                (c.comp if kinds[k] == "alg" else c).pair_ap.connect(imps[k].imp)

        async def run_phase(self, phase):
            phase.raise_objection(self)
            for n, (dt, k, what, v) in enumerate(case["ops"]):
                k %= len(kinds)
                kind = kinds[k]
                if dt:
                    await Timer(dt, "NS")
                    look()
                cmp_ = comps[k].comp if kind == "alg" else comps[k]
                if what == "f":
                    await Timer(1, "NS")
                    look()
                    cmp_.flush()
                    counts[k] = [0, 0]
                    st["flushes"] += 1
                    continue
                side = "ba".index(what)
                if kind == "int":
                    item = VALS[v]
                elif kind == "custom":
                    item = v
                elif kind == "alg" and side == 0:
                    item = v % 6
                else:
                    item = Obj("o%d" % n, v % 6)
                aps[k][side].write(item)
                if kind == "alg" and side == 0:
                    item = (item * 2 % 6)
                q = qs[k]
                q[side].append(item)
                st["ahead"] += abs(len(q[0]) - len(q[1])) > 1
                if q[0] and q[1]:
                    b, a = q[0].pop(0), q[1].pop(0)
                    if kind == "int":
                        same = a == b
                    elif kind == "custom":
                        same = a % 2 == b % 2
                    elif kind == "customclass":
                        same = a.i == b.i
                    elif kind == "alg":
                        same = (a.i, a.s) == (b % 3, "xy"[b // 3 % 2])
                    else:
                        same = (a.i, a.s) == (b.i, b.s)
                    want[k].append((a, b, sv.time()))
                    counts[k][not same] += 1
                    st["matches" if same else "mismatches"] += 1
                    if not same:
                        errs.append(k)
            await Timer(5, "NS")
            look()
            phase.drop_objection(self)

    def look():
        for k, c in enumerate(comps):
            what = "comparator %d (%s)" % (k, kinds[k])
            eq(len(got[k]), len(want[k]), "%s: number of pairs" % what)
            for n, (x, y) in enumerate(zip(got[k], want[k])):
                check(x[0] is y[0], "%s: pair %d has first %r, expected the after item %r", what, n, x[0], y[0])
                if kinds[k] == "alg":
                    eq((x[1].i, x[1].s), (y[1] % 3, "xy"[y[1] // 3 % 2]), "%s: second of pair %d" % (what, n))
                else:
                    check(x[1] is y[1], "%s: pair %d has second %r, expected the before item %r", what, n, x[1], y[1])
                eq(x[2], y[2], "%s: time of pair %d" % (what, n))
            c = c.comp if kinds[k] == "alg" else c
            eq([c.m_matches, c.m_mismatches], counts[k], "%s: matches and mismatches" % what)
        eq(len(rep.errors()), len(errs), "mismatch errors reported: %r" % rep.errors()[-2:])
    uvm_component_utils(Top)
    _ = UVMBuiltInConverter
    uvm_run(Top)
    eq(set(m[1] for m in rep.errors()) - {"Comparator Mismatch"}, set(), "error ids")
    eq(len([m for m in rep.msgs if m[1] == "Comparator Match"]), st["matches"], "match reports")
    # pairs
    for a, b, c, d in case["pairs"]:
        same = (a, b) == (c, d)
        p, q = UVMBuiltInPair("p"), UVMBuiltInPair("q")
        p.convert2string()
        p.first, p.second, q.first, q.second = a, b, c, d
        eq(bool(p.compare(q)), same, "built-in pairs %r and %r equal" % ((a, b), (c, d)))
        check(str(a) in p.convert2string() and str(b) in p.convert2string(), "convert2string %r of pair %r", p.convert2string(), (a, b))
        p.copy(q)
        eq((p.first, p.second), (c, d), "copied built-in pair")
        p, q = UVMClassPair("p", Obj("f", a), Obj("s", b)), UVMClassPair("q", Obj("f", c), Obj("s", d))
        eq(bool(p.compare(q)), same, "class pairs %r and %r equal" % ((a, b), (c, d)))
        check("O%dx, O%dx" % (a, b) in p.convert2string(), "convert2string of the class pair: %r", p.convert2string())
        f = p.first
        p.copy(q)
        eq((p.first.i, p.second.i, p.first is f), (c, d, True), "copied class pair")
    return {"nontrivial": bool(st["ahead"] and st["matches"] and st["mismatches"]), **st}
