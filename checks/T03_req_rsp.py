from util import *
import chan

ID = "T03"
META = {
    "title": "Request/response channels keep the two directions apart and in order",
    "statement": "For every set of masters and slaves on a UVMTLMReqRspChannel, using master and slave ports of every blocking kind or the separate request and response exports, directly or over hops, requests put by masters reach the slaves and responses put by slaves reach the masters, each in order, exactly once and within the configured FIFO sizes. Neither direction ever leaks into the other; calls block exactly while they must, and request_ap and response_ap carry exactly the requests and responses put.",
    "over": ["histories", "schedules", "configurations"],
    "quant": "all numbers of masters and slaves, request and response FIFO sizes, port kinds and hop chains, mixes of calls and relative timing",
    "why": "No test drives the master and slave exports with several components; crossed directions or a full response FIFO only show under load.",
    "files": ["src/uvm/tlm1/uvm_tlm_req_rsp.py", "src/uvm/tlm1/uvm_imps.py", "src/uvm/tlm1/uvm_tlm_fifos.py", "src/uvm/tlm1/uvm_ports.py", "src/uvm/tlm1/uvm_exports.py"],
    "mech": [["UVMTLMReqRspChannel", "src/uvm/tlm1/uvm_tlm_req_rsp.py"], ["UVM_MS_IMP_COMMON master/slave imps", "src/uvm/tlm1/uvm_tlm_imps.py"]],
    "note": "Whole tests on a simulated kernel: both directions run random process sets at once against two queue models.",
}
RULE = "two or more processes were blocked at the same time"
N = (55, 8000)
ASSUMPTIONS = ["masters and slaves are separate components"]
KINDS = [["ms"], ["blocking_ms", "nonblocking_ms"], ["put", "get_peek"],
         ["blocking_put", "nonblocking_put", "blocking_get_peek", "nonblocking_get", "nonblocking_peek"],
         ["put", "get", "blocking_peek", "nonblocking_peek"], ["put", "get", "peek"],
         ["blocking_put", "nonblocking_put", "blocking_get", "nonblocking_get", "blocking_peek", "nonblocking_peek"],
         ["put", "blocking_get_peek", "nonblocking_get_peek"]]


def strategy():
    def fn(g):
        c = {"boxed": g.b()}
        for d in ("req", "rsp"):
            c[d] = {"cap": g.pick([1, 1, 0, 2, 3]), "procs": chan.procs(g, ["p", "g"])}
            for p in c[d]["procs"]:
                p["kind"], p["hops"] = g.i(0, len(KINDS) - 1), g.i(0, 1)
        return c
    return gen(fn, 500)


def run(case):
    from uvm import UVMComponent
    from uvm.tlm1 import uvm_ports, uvm_exports
    from uvm.tlm1.uvm_tlm_req_rsp import UVMTLMReqRspChannel
    from uvm.tlm1.uvm_tlm_fifos import UVMTLMAnalysisFIFO
    rep = Reports()

    def cls(kind, suffix):
        if suffix == "Export" and kind == "blocking_slave":
            return uvm_exports.uvm_blocking_slave_export
        n = "".join(x.capitalize() for x in kind.split("_")).replace("Nonblocking", "NonBlocking")
        return getattr(uvm_ports if suffix == "Port" else uvm_exports, "UVM" + n + suffix)

    class User(UVMComponent):
        def __init__(self, name, parent, d, spec, hops):
            super().__init__(name, parent)
            # a putter of requests / getter of responses is a master
            master = (spec["role"] == "p") == (d == "req")
            self.kinds = {}
            for k in KINDS[spec["kind"]]:
                if "ms" in k:
                    k = k.replace("ms", "master" if master else "slave")
                    self.kinds[k] = k
                elif ("put" in k) == (spec["role"] == "p"):
                    self.kinds[k] = k + ("_request" if d == "req" else "_response")
            self.p = {k: cls(k, "Port")(k + "_port", self) for k in self.kinds}
            self.inner = User("w", self, d, spec, hops - 1) if hops else None

        def connect_phase(self, phase):
            if self.inner:
                for k in self.kinds:
                    self.inner.p[k].connect(self.p[k])

        def leaf(self):
            return self.inner.leaf() if self.inner else self

        def __getattr__(self, m):
            if m not in ("put", "get", "peek", "try_put", "try_get", "try_peek"):
                raise AttributeError(m)
            block = m in ("put", "get", "peek")
            for k in self.kinds:
                ok = m.split("_")[-1] in k.split("_") or "master" in k or "slave" in k
                if ok and not k.startswith("nonblocking" if block else "blocking"):
                    return getattr(self.p[k], m)
            raise Violation("no port for " + m)

    class Box(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.ch = UVMTLMReqRspChannel("ch", self, case["req"]["cap"], case["rsp"]["cap"])
            self.e = {}

        def use(self, kind, target):
            if target not in self.e:
                self.e[target] = cls(kind, "Export")(target + "_exp", self)
            return self.e[target]

        def connect_phase(self, phase):
            for t, e in self.e.items():
                e.connect(getattr(self.ch, t + "_export"))
    st = {"blocked": 0, "ops": 0}

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.box = Box("box", self) if case["boxed"] else None
        self.rr = self.box.ch if self.box else UVMTLMReqRspChannel("ch", self, case["req"]["cap"], case["rsp"]["cap"])
        self.ch2 = UVMTLMReqRspChannel("ch2", self)   # an unused second channel
        self.users = {d: [User("%s%d" % (d, i), self, d, p, p["hops"]) for i, p in enumerate(case[d]["procs"])]
                      for d in ("req", "rsp")}
        self.exps = {}
        for d in self.users:
            for i, u in enumerate(self.users[d]):
                for k, t in u.kinds.items():
                    self.exps[d, i, k] = self.box.use(k, t) if self.box else getattr(self.rr, t + "_export")
        self.log = {d: UVMTLMAnalysisFIFO(d + "_log", self) for d in self.users}

    def connect(self, phase):
        ch = self.rr
        for (d, i, k), e in self.exps.items():
            self.users[d][i].p[k].connect(e)
        ch.request_ap.connect(self.log["req"].analysis_export)
        ch.response_ap.connect(self.log["rsp"].analysis_export)

    async def run_phase(self, phase):
        import cocotb
        phase.raise_objection(self)
        cs = {d: chan.Channel(case[d]["procs"], case[d]["cap"], lambda i, d=d: self.users[d][i].leaf(), tag=d) for d in self.users}
        t = cocotb.start_soon(cs["rsp"].run())
        await cs["req"].run()
        await t.join() if hasattr(t, "join") else await t
        ch = self.rr
        for d, exp in (("req", ch.get_peek_request_export), ("rsp", ch.get_peek_response_export)):
            log, rest = [], []
            while self.log[d].try_get(log):
                pass
            eq(log, cs[d].puts, "items sent to the %s analysis port" % d)
            while exp.try_get(rest):
                pass
            eq(rest, cs[d].q, "items left in the %s FIFO" % d)
            st["blocked"] = max(st["blocked"], cs[d].st["blocked"])
            st["ops"] += cs[d].st["ops"]
            st[d] = len(cs[d].gets)
        phase.drop_objection(self)
    top = comp_class("T03Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    check("rsp" in st, "the test did not finish")
    rep.none_bad()
    return {"nontrivial": st["blocked"] >= 2, "ops": st["ops"], "requests": st["req"], "responses": st["rsp"]}
