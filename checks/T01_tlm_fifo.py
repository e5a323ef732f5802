from util import *
import chan

ID = "T01"
META = {
    "title": "TLM FIFOs deliver every item once, in order, through every kind of port",
    "statement": "For every set of components using a UVMTLMFIFO (or UVMTLMAnalysisFIFO) concurrently through put, get and peek ports of every blocking and non-blocking kind, directly or over port and export hops, items come out in the order put, each exactly once, within the size. Blocking calls wait exactly while they must; try_ and can_ calls, used, size, is_empty and is_full tell the truth; put_ap and get_ap carry exactly the items put and got, in that order; flush empties the FIFO.",
    "over": ["histories", "schedules", "configurations"],
    "quant": "all sets of producers and consumers, FIFO sizes, port kinds and connection chains, mixes of blocking, non-blocking and flush calls, and relative timing including simultaneous calls",
    "why": "Unit tests use a FIFO with one producer and consumer; lost wake-ups, duplicated items and wrong status need contention and mixed calls.",
    "files": ["src/uvm/tlm1/uvm_tlm_fifos.py", "src/uvm/tlm1/uvm_tlm_fifo_base.py", "src/uvm/tlm1/uvm_ports.py", "src/uvm/tlm1/uvm_exports.py", "src/uvm/tlm1/uvm_imps.py", "src/uvm/base/uvm_mailbox.py"],
    "mech": [["UVMTLMFIFO", "src/uvm/tlm1/uvm_tlm_fifos.py"], ["UVMMailbox", "src/uvm/base/uvm_mailbox.py"], ["port/export/imp method forwarding", "src/uvm/tlm1/uvm_tlm_imps.py"]],
    "note": "Whole tests on a simulated kernel with random process sets and random port topologies against a queue model; blocking is judged after every time slot.",
}
RULE = "two or more processes were blocked at the same time, or a flush removed items"
N = (90, 12000)
ASSUMPTIONS = ["can_get is judged while no blocking get is pending", "items are strings"]
PUTS = [["put"], ["blocking_put", "nonblocking_put"]]
GETS = [["get_peek"], ["get", "peek"], ["blocking_get_peek", "nonblocking_get_peek"],
        ["blocking_get", "nonblocking_get", "blocking_peek", "nonblocking_peek"],
        ["get", "blocking_peek", "nonblocking_peek"]]


def strategy():
    def fn(g):
        an = g.b(1, 4)
        cap = 0 if an else g.pick([1, 1, 0, 2, 3])
        extra = ["can", "can", "flush"] + (["write", "write"] if an else [])
        ps = chan.procs(g, None, extra if g.b(2, 3) else ["can"])
        for p in ps:
            p["put"], p["get"], p["hops"], p["alias"] = g.i(0, 1), g.i(0, 4), g.i(0, 2), g.i(0, 2)
        return {"an": an, "cap": cap, "procs": ps, "ehops": g.i(0, 2), "subs": g.i(0, 2)}
    return gen(fn, 400)


class Chan(chan.Channel):
    def extra(self, op, a, what):
        if op == "flush":
            for x in list(self.q):
                self.st["flushed"] = 1
                self.gets.append(self.q.pop(0))
            self.fifo.flush()
        elif op == "write":
            item = what
            self.fifo_write(item)
            self.put_done(item)
        else:
            room = self.cap <= 0 or len(self.q) < self.cap
            eq(bool(a.can_put()), room, what + " can_put()")
            eq(bool(a.can_peek()), bool(self.q), what + " can_peek()")
            got = bool(a.can_get())
            if not self.q:
                check(not got, what + ": can_get() although empty")
            elif not self.killed and not any(self.state.get(i) == "get" and self.op[i] == "get" for i in range(len(self.spec))):
                check(got, what + ": not can_get() although %d items are there", len(self.q))


def run(case):
    import uvm
    from uvm import UVMComponent
    from uvm.tlm1 import uvm_ports, uvm_exports
    from uvm.tlm1.uvm_tlm_fifos import UVMTLMFIFO, UVMTLMAnalysisFIFO
    from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp, UVMAnalysisPort
    rep = Reports()

    def cls(kind, suffix):
        n = "".join(x.capitalize() for x in kind.split("_")).replace("Nonblocking", "NonBlocking")
        return getattr(uvm_ports if suffix == "Port" else uvm_exports, "UVM" + n + suffix)

    class Sub(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.imp = UVMAnalysisImp("imp", self)
            self.seen = []

        def write(self, t):
            self.seen.append(t)

    class User(UVMComponent):
        """Component with the ports of one process (or a wrapper around one)."""
        def __init__(self, name, parent, spec, hops):
            super().__init__(name, parent)
            self.kinds = PUTS[spec["put"]] + GETS[spec["get"]]
            self.p = {k: cls(k, "Port")(k + "_port", self) for k in self.kinds}
            self.inner = User("w", self, spec, hops - 1) if hops else None

        def connect_phase(self, phase):
            if self.inner:
                for k in self.kinds:
                    self.inner.p[k].connect(self.p[k])

        def leaf(self):
            return self.inner.leaf() if self.inner else self

    class Api:
        def __init__(self, u):
            self.u = u

        def __getattr__(self, m):
            block = m in ("put", "get", "peek")
            for k in self.u.kinds:
                if m.split("_")[-1] in k.split("_") and not k.startswith("nonblocking" if block else "blocking"):
                    return getattr(self.u.p[k], m)
            raise Violation("no port for " + m)

    class Box(UVMComponent):
        """The FIFO behind 0..2 levels of exports."""
        def __init__(self, name, parent, hops):
            super().__init__(name, parent)
            self.inner = Box("b", self, hops - 1) if hops else None
            if hops == 0:
                self.fifo = UVMTLMAnalysisFIFO("fifo", self) if case["an"] else UVMTLMFIFO("fifo", self, case["cap"])
            self.e = {k: cls(k, "Export")(k + "_exp", self) for k in sorted(set(k for p in case["procs"] for k in PUTS[p["put"]] + GETS[p["get"]]))}

        def connect_phase(self, phase):
            for k, e in self.e.items():
                e.connect(self.inner.e[k] if self.inner else getattr(self.fifo, k + "_export"))

        def core(self):
            return self.inner.core() if self.inner else self.fifo

    st = {}

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.box = Box("box", self, case["ehops"])
        self.users = [User("u%d" % i, self, p, p["hops"]) for i, p in enumerate(case["procs"])]
        self.subs = {ap: [Sub("%s_s%d" % (ap, i), self) for i in range(case["subs"])] for ap in ("put_ap", "get_ap")}
        self.log = UVMTLMAnalysisFIFO("log", self)
        self.wr = UVMAnalysisPort("wr", self)

    def connect(self, phase):
        for u in self.users:
            for k in u.kinds:
                u.p[k].connect(self.box.e[k])
        f = self.box.core()
        for ap, subs in self.subs.items():
            for s in subs:
                getattr(f, ap).connect(s.imp)
        f.put_ap.connect(self.log.analysis_export)
        if case["an"]:
            self.wr.connect(f.analysis_export)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        f = self.box.core()

        def status(q, what):
            eq(f.size(), case["cap"], what + ": size()")
            eq(bool(f.is_empty()), not q, what + ": is_empty()")
            eq(bool(f.is_full()), case["cap"] > 0 and len(q) == case["cap"], what + ": is_full()")
        c = Chan(case["procs"], case["cap"], lambda i: Api(self.users[i].leaf()), f.used, status)
        c.fifo, c.fifo_write = f, self.wr.write
        await c.run()
        log = []
        while self.log.try_get(log):
            pass
        eq(log, c.puts, "items sent to put_ap")
        for s in self.subs["put_ap"]:
            eq(s.seen, c.puts, "items sent to put_ap")
        for s in self.subs["get_ap"]:
            eq(s.seen, c.gets, "items sent to get_ap")
        rest = []
        while f.try_get(rest):
            pass
        eq(rest, c.q, "items left in the FIFO")
        st.update(c.st)
        st["puts"] = len(c.puts)
        st["gets"] = len(c.gets)
        phase.drop_objection(self)
    top = comp_class("T01Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    check("puts" in st, "the test did not finish")
    rep.none_bad()
    return {"nontrivial": st["blocked"] >= 2 or bool(st.get("flushed")), "ops": st["ops"], "puts": st["puts"], "gets": st["gets"]}
