from util import *

ID = "T02"
META = {
    "title": "Analysis writes reach every connected subscriber exactly once, in order",
    "statement": "For every network of analysis ports, exports, imps, suffixed imps, subscribers and analysis FIFOs, each write on a port (or export) calls the write method of every reachable implementation exactly once, however many paths lead there, with the very same object, before the write returns, and of no other one. Every implementation sees the items in the order they were written, including writes made from within a write. A port without subscribers accepts writes silently.",
    "over": ["configurations", "histories"],
    "quant": "all connection networks (fan-out, fan-in, port-to-port, export-to-export, several paths to one imp, unconnected ports), orders of connect calls and histories of writes, nested ones included",
    "why": "Tests connect one port to one or two imps; duplicated or lost deliveries need diamonds, chains and nested writes.",
    "files": ["src/uvm/tlm1/uvm_analysis_port.py", "src/uvm/base/uvm_port_base.py", "src/uvm/macros/uvm_tlm_defines.py", "src/uvm/comps/uvm_subscriber.py", "src/uvm/tlm1/uvm_tlm_fifos.py"],
    "mech": [["UVMAnalysisPort.write / UVMAnalysisExport.write", "src/uvm/tlm1/uvm_analysis_port.py"], ["UVMPortBase.resolve_bindings", "src/uvm/base/uvm_port_base.py"], ["uvm_analysis_imp_decl", "src/uvm/macros/uvm_tlm_defines.py"]],
    "note": "Random networks in whole tests; deliveries are compared with reachability in the connection graph.",
}
RULE = "an implementation is reachable over two paths, or a write is made from within a write, and items were delivered"
N = (100, 16000)


def strategy():
    def fn(g):
        nl, nw = g.i(1, 5) if g.b(5, 6) else g.i(9, 14), g.i(0, 3)
        # leaves: components with imps; wraps: sub-trees with exports in front of leaves
        leaves = [{"kind": g.pick(["imp", "sub", "fifo", "two", "relay"]), "box": g.i(0, 2)} for _ in range(nl)]
        ports = [{"hops": g.i(0, 2)} for _ in range(g.i(1, 3))]
        con = [[g.i(0, 9), g.i(0, 9), g.i(0, 1)] for _ in range(g.i(1, 8) if nl < 9 else 24)]
        chain = [[g.i(0, 9), g.i(0, 9)] for _ in range(nw)]
        return {"leaves": leaves, "ports": ports, "con": con, "chain": chain, "relay": [[g.i(0, 9), g.i(0, 9)] for _ in range(g.i(0, 3))],
                "writes": [[g.i(0, 9), g.b(1, 4)] for _ in range(g.i(1, 8) if g.b(5, 6) else g.i(20, 40))], "lazy": g.b(1, 3), "rev": g.b()}
    return gen(fn, 200)


def run(case):
    from uvm import UVMComponent, UVMSubscriber
    from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp, UVMAnalysisPort, UVMAnalysisExport
    from uvm.tlm1.uvm_tlm_fifos import UVMTLMAnalysisFIFO
    from uvm.macros.uvm_tlm_defines import uvm_analysis_imp_decl
    rep = Reports()
    ImpA, ImpB = uvm_analysis_imp_decl("_aa"), uvm_analysis_imp_decl("_bb")
    seen, want, graph, depth = {}, {}, {}, [0]
    st = {"writes": 0, "delivered": 0, "multi": 0, "nested": 0}

    class Item:
        pass

    class Leaf(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            if self.spec["kind"] == "two":
                self.imps = [ImpA("a", self), ImpB("b", self)]
            else:
                self.imps = [UVMAnalysisImp("imp", self)]
            self.ap = UVMAnalysisPort("ap", self)

        def write(self, t):
            arrive(self.key[0], t)
            if self.spec["kind"] == "relay" and depth[0] < 4:
                st["nested"] += 1
                send(self.ap, Item())

        def write_aa(self, t):
            arrive(self.key[0], t)

        def write_bb(self, t):
            arrive(self.key[1], t)

    class MySub(UVMSubscriber):
        def write(self, t):
            arrive(self.key[0], t)

    class Box(UVMComponent):
        """0..2 levels of exports in front of a leaf."""
        def __init__(self, name, parent, spec, n, key):
            super().__init__(name, parent)
            self.inner, self.leaf = None, None
            if n:
                self.inner = Box("b", self, spec, n - 1, key)
                self.leaf, tgt = self.inner.leaf, self.inner.e
            else:
                k = spec["kind"]
                if k == "sub":
                    self.leaf = MySub("leaf", self)
                    tgt = [self.leaf.analysis_export]
                elif k == "fifo":
                    self.leaf = UVMTLMAnalysisFIFO("leaf", self)
                    tgt = [self.leaf.analysis_export]
                else:
                    self.leaf = type("L", (Leaf,), {"spec": spec})("leaf", self)
                    tgt = self.leaf.imps
                self.leaf.key = ["%s.%d" % (key, i) for i in range(len(tgt))]
                for i, t in enumerate(tgt):
                    graph[id(t)] = {self.leaf.key[i]}
            self.tgt = tgt
            self.e = [UVMAnalysisExport("e%d" % i, self) for i in range(len(tgt))]
            for e, t in zip(self.e, tgt):
                graph[id(e)] = [t]

        def connect_phase(self, phase):
            for e, t in zip(self.e, self.tgt):
                e.connect(t)

    class Src(UVMComponent):
        """A port behind 0..2 levels of ports."""
        def __init__(self, name, parent, n):
            super().__init__(name, parent)
            self.p = UVMAnalysisPort("p", self)
            graph[id(self.p)] = []
            self.inner = Src("s", self, n - 1) if n else None
            if n:
                graph[id(self.inner.p)].append(self.p)

        def connect_phase(self, phase):
            if self.inner:
                self.inner.p.connect(self.p)

    def reach(p):
        g = graph[id(p)]
        return set(g) if isinstance(g, set) else set().union(*[reach(x) for x in g])

    def paths(p):
        g = graph[id(p)]
        return 1 if isinstance(g, set) else sum(paths(x) for x in g)

    def arrive(key, t):
        seen.setdefault(key, []).append(t)

    def send(p, item):
        st["writes"] += 1
        keys = reach(p)
        if paths(p) > len(keys):
            st["multi"] += 1
        before = {k: len(seen.get(k, [])) for k in keys}
        depth[0] += 1
        p.write(item)
        depth[0] -= 1
        for k, leaf in fifos.items():
            if case["lazy"]:
                # the FIFO keeps everything until the end
                if k in keys:
                    queued[k].append(item)
                if not depth[0]:
                    eq(leaf.used(), len(queued[k]), "items in " + k)
                continue
            got = []
            while leaf.try_get(got):
                pass
            for t in got:
                arrive(k, t)
        for k, l in seen.items():
            if k in queued:
                continue
            n = sum(1 for t in l if t is item)
            eq(n, int(k in keys), "deliveries of one write to " + k)
            if k in keys and not depth[0]:
                st["delivered"] += 1
        for k in keys - set(queued):
            check(any(t is item for t in seen.get(k, [])[before[k]:]), "%s did not get the item written", k)
    fifos, queued = {}, {}

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.boxes = [Box("x%d" % i, self, s, s["box"], str(i)) for i, s in enumerate(case["leaves"])]
        self.srcs = [Src("s%d" % i, self, s["hops"]) for i, s in enumerate(case["ports"])]
        self.mid = [UVMAnalysisExport("m%d" % i, self) for i in range(len(case["chain"]))]
        for m in self.mid:
            graph[id(m)] = []
        for b in self.boxes:
            if isinstance(b.leaf, UVMTLMAnalysisFIFO):
                fifos[b.leaf.key[0]] = b.leaf
                if case["lazy"]:
                    queued[b.leaf.key[0]] = []
            elif isinstance(b.leaf, Leaf):
                graph[id(b.leaf.ap)] = []

    def connect(self, phase):
        ends = [e for b in self.boxes for e in b.e]
        con = []
        for m, ch in zip(self.mid, case["chain"]):
            con += [(m, ends[x % len(ends)]) for x in ch]
        for s, d, via in case["con"]:
            t = self.mid[d % len(self.mid)] if via and self.mid else ends[d % len(ends)]
            con.append((self.srcs[s % len(self.srcs)].p, t))
        relays = [b.leaf.ap for b in self.boxes if isinstance(b.leaf, Leaf) and b.leaf.spec["kind"] == "relay"]
        for s, d in case["relay"] if relays else []:
            # connect the relay's own port to another leaf's export
            con.append((relays[s % len(relays)], ends[d % len(ends)]))
        for a, b in (reversed(con) if case["rev"] else con):
            a.connect(b)
            if b not in graph[id(a)]:
                graph[id(a)].append(b)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        for i, mid in case["writes"]:
            s = self.srcs[i % len(self.srcs)]
            while s.inner:
                s = s.inner
            p = self.mid[i % len(self.mid)] if mid and self.mid else s.p
            send(p, Item())
        for k, l in queued.items():
            got = []
            while fifos[k].try_get(got):
                pass
            # of nested writes, the outer one's item is on its way while the inner one is made
            check(len(got) == len(l) and set(map(id, got)) == set(map(id, l)), "items in %s: got %d of %d written", k, len(got), len(l))
            if not st["nested"]:
                check(all(a is b for a, b in zip(got, l)), "order of the items in %s", k)
        st["done"] = 1
        phase.drop_objection(self)
    top = comp_class("T02Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    check("done" in st, "the test did not finish")
    bad = [m for m in rep.msgs if m[0] >= 1 and m[1] != "Connection Warning"]
    check(not bad, "unexpected reports %r", bad[:3])
    return {"nontrivial": bool((st["multi"] or st["nested"]) and st["delivered"]), "writes": st["writes"],
            "delivered": st["delivered"], "nested": st["nested"]}
