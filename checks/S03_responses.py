from util import *

ID = "S03"
META = {
    "title": "Responses reach the sequence that issued the request, in order, none lost",
    "statement": "A response that carries the id info of a request (set_id_info) and is sent by the driver through item_done(rsp), put_response, put or rsp_port, at once or later and in any order, is given to the sequence that issued the request and to no other. The sequence's get_response returns responses in arrival order, or the first with the given transaction id, exactly once each and as soon as one is there; with use_response_handler, response_handler is called once per response instead. The queue holds at most response_queue_depth responses (8 by default, -1 unbounded): later ones are dropped with an error unless the error report is disabled. Responses for a sequence that has finished are dropped with an info report, and a restarted sequence starts with an empty queue. Transaction ids count 1, 2, ... per sequence unless the item has one.",
    "over": ["histories", "schedules"],
    "quant": "all sets of sequences, response routes, delays and orders, queue depths, getters with and without transaction id running in or beside the item stream, and restarts",
    "why": "Tests use one sequence, one route and immediate responses; misrouted, lost or mis-ordered responses need overlap and delay.",
    "files": ["src/uvm/seq/uvm_sequence_base.py", "src/uvm/seq/uvm_sequence.py", "src/uvm/seq/uvm_sequencer_param_base.py", "src/uvm/seq/uvm_sequencer_analysis_fifo.py", "src/uvm/seq/uvm_sequence_item.py", "src/uvm/seq/uvm_sequencer.py"],
    "mech": [["UVMSequencerParamBase.put_response", "src/uvm/seq/uvm_sequencer_param_base.py"], ["UVMSequenceBase.put_base_response / get_base_response", "src/uvm/seq/uvm_sequence_base.py"], ["UVMSequencerAnalysisFIFO.write", "src/uvm/seq/uvm_sequencer_analysis_fifo.py"]],
    "note": "Whole tests on a simulated kernel against a reference model of the per-sequence response queues.",
}
RULE = "responses were outstanding for two or more sequences, or a response overtook another, or one was dropped"
N = (120, 12000)
ASSUMPTIONS = ["threads of a sequence that get responses concurrently get different ones (at most one without transaction id)", "responses sent at the very time their sequence ends are not judged"]


def strategy():
    def fn(g):
        seqs = []
        for _ in range(g.i(1, 4)):
            depth = g.pick([8, 8, 8, -1, -1, 1, 2, 0])
            steps = []
            for _ in range(g.i(1, 7)):
                k = g.i(0, 9)
                if k < 5:
                    steps.append(["item", g.pick([-1, -1, -1, 50, 51])])
                elif k < 7:
                    steps.append(["wait", g.i(1, 5)])
                else:
                    steps.append(["get", -1 if g.b() else g.i(0, 3)])
            seqs.append({"t": g.pick([0, 0, 1, 3]), "depth": depth, "quiet": g.b(1, 4), "handler": g.b(1, 5), "steps": steps,
                         "fork": [["wait", g.i(1, 4)] if g.b(1, 4) else ["get", -1 if g.b(2, 3) else g.i(0, 3)] for _ in range(g.i(0, 4))] if g.b(1, 2) else None,
                         "fork2": [["wait", g.i(1, 4)] if g.b(1, 4) else ["get", g.i(0, 3)] for _ in range(g.i(1, 3))] if g.b(1, 3) else None,
                         "end": g.pick([0, 0, 3, 8]), "runs": g.pick([1, 1, 1, 2])})
        rsp = []
        for _ in range(6):
            rsp.append([[g.pick(["done", "put_response", "put", "port"]), g.pick([0, 0, 1, 2, 4, 7, 12])] for _ in range(g.pick([1, 1, 1, 1, 1, 0, 2, 3, 9]))])
        return {"seqs": seqs, "rsp": rsp, "drv": g.pick(["next", "next", "get"]), "d1": g.pick([0, 0, 1]), "d2": g.pick([0, 0, 1]),
                "last": [g.pick([0, 1, 2, 10, 1024, 1025, 4000]) for _ in range(g.i(0, 2))]}
    return gen(fn, 350)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent, UVMSequence, UVMSequenceItem, UVMSequencer, UVMDriver
    from uvm.macros import uvm_object_utils
    rep = Reports()
    now = lambda: cocotb.utils.get_sim_time("ps")
    st = {"over": False, "drop": 0, "amb": 0, "overflow": 0, "ambover": 0, "rsps": 0, "overtake": False, "got": 0, "req": 0, "both": 0, "two": False}
    model = {}     # run key -> dict(q, spec, endtime, handled, waiting)
    ids = {}

    class Item(UVMSequenceItem):
        pass
    uvm_object_utils(Item)

    class Seq(UVMSequence):
        def __init__(self, name="seq"):
            super().__init__(name)
            self.nrun = 0

        def response_handler(self, response):
            m = model[self.key]
            check(m["spec"]["handler"], "response_handler of %s called although it is not in use", self.key)
            m["handled"].append(response)

        async def get(self, m, tid, thread):
            out = []
            if tid in m["waiting"].values():
                return      # (another thread waits for the same)
            m["waiting"][thread] = tid
            if len(m["waiting"]) > 1:
                st["both"] += 1
            if tid == -1:
                await self.get_response(out)
            else:
                await self.get_response(out, tid)
            del m["waiting"][thread]
            eq(len(out), 1, "responses output by get_response")
            cand = [r for r in m["q"] if tid == -1 or r.get_transaction_id() == tid]
            if tid == -1 and out[0] in cand and cand[0].get_transaction_id() in m["waiting"].values():
                cand = [out[0]]      # (which one is left to the thread without transaction id is not specified)
            check(cand, "%s: get_response(%d) returned %r, none is expected", self.key, tid, out[0].get_name())
            check(out[0] is cand[0], "%s: get_response(%d) returned %r, expected %r", self.key, tid, out[0].get_name(), cand[0].get_name())
            m["q"].remove(cand[0])
            st["got"] += 1

        async def steps(self, m, steps, thread):
            for s in steps:
                if s[0] == "wait":
                    await Timer(s[1] * 1000, "ps")
                elif s[0] == "get":
                    tid = s[1]
                    if tid >= 0:
                        known = m["tids"]
                        tid = known[tid % len(known)] if known else 1
                    if not m["spec"]["handler"]:
                        await self.get(m, tid, thread)
                else:
                    it = Item("req")
                    if s[1] >= 0:
                        it.set_transaction_id(s[1])
                    it.key, it.preset = self.key, s[1]
                    await self.start_item(it)
                    await self.finish_item(it)

        async def body(self):
            self.key = "%s.%d" % (self.uid, self.nrun)
            self.nrun += 1
            m = model[self.key] = {"q": [], "spec": self.spec, "end": None, "handled": [], "sent": [], "waiting": {}, "tids": []}
            m["next"] = ids.setdefault(self.uid, 1)
            fork = [cocotb.start_soon(self.steps(m, self.spec[f], f)) for f in ("fork", "fork2") if self.spec[f]]
            steps = self.spec["steps"]
            if fork:
                steps = [s for s in steps if s[0] != "get"]
            await self.steps(m, steps, "main")
            if self.spec["end"]:
                await Timer(self.spec["end"] * 1000, "ps")
            for f in fork:
                await f
            m["end"] = now()
            ids[self.uid] = m["next"]
    uvm_object_utils(Seq)

    def sent(rsp, req, seqno):
        """Account for a response just before it is sent."""
        m = model[req.key]
        st["rsps"] += 1
        if m["end"] is not None:
            if m["end"] == now():
                st["amb"] += 1
            else:
                st["drop"] += 1
            return
        if m["sent"] and m["sent"][-1] > seqno:
            st["overtake"] = True
        m["sent"].append(seqno)
        if m["spec"]["handler"]:
            m["q"].append(rsp)
            return
        d = m["spec"]["depth"]
        if d != -1 and len(m["q"]) >= d:
            if not m["spec"]["quiet"]:
                st["overflow"] += 1
            return
        m["q"].append(rsp)
        if sum(1 for x in model.values() if x["q"]) >= 2:
            st["two"] = True

    class Drv(UVMDriver):
        async def respond(self, rsp, req, route, delay, n):
            if delay:
                await Timer(delay * 1000, "ps")
            self.send(rsp, req, route, n)
            if route == "put":
                await self.seq_item_port.put(rsp)

        def send(self, rsp, req, route, n):
            sent(rsp, req, n)
            if route == "port":
                self.rsp_port.write(rsp)
            elif route != "put":
                self.seq_item_port.put_response(rsp)

        async def run_phase(self, phase):
            port = self.seq_item_port
            n = 0
            while True:
                t = []
                if case["drv"] == "next":
                    await port.get_next_item(t)
                else:
                    await port.get(t)
                req = t[0]
                st["req"] += 1
                m = model[req.key]
                if req.preset >= 0:
                    eq(req.get_transaction_id(), req.preset, "transaction id of an item that has one")
                else:
                    eq(req.get_transaction_id(), m["next"], "transaction id of an item of " + req.key)
                    m["next"] += 1
                m["tids"].append(req.get_transaction_id())
                if case["d1"]:
                    await Timer(case["d1"] * 1000, "ps")
                done = None
                for i, (route, delay) in enumerate(case["rsp"][n % len(case["rsp"])]):
                    rsp = Item("rsp%d_%d" % (n, i))
                    rsp.set_id_info(req)
                    eq(rsp.get_transaction_id(), req.get_transaction_id(), "transaction id copied by set_id_info")
                    if route == "done" and i == 0 and case["drv"] == "next":
                        done = rsp
                    elif delay == 0 and route != "put":
                        self.send(rsp, req, "put_response" if route == "done" else route, n)
                    else:
                        cocotb.start_soon(self.respond(rsp, req, "put_response" if route == "done" else route, delay, n))
                if case["drv"] == "next":
                    if done is not None:
                        sent(done, req, n)
                        port.item_done(done)
                    else:
                        port.item_done()
                if case["d2"]:
                    await Timer(case["d2"] * 1000, "ps")
                n += 1

    async def run_phase(self, phase):
        phase.raise_objection(self)

        async def one(i, spec):
            if spec["t"]:
                await Timer(spec["t"] * 1000, "ps")
            s = Seq("s%d" % i)
            s.uid, s.spec = str(i), spec
            if spec["depth"] != 8:
                s.set_response_queue_depth(spec["depth"])
            eq(s.get_response_queue_depth(), spec["depth"], "get_response_queue_depth")
            s.set_response_queue_error_report_disabled(spec["quiet"])
            s.use_response_handler(spec["handler"])
            for r in range(spec["runs"]):
                await s.start(self.sqr)
                if r + 1 < spec["runs"]:
                    await Timer(1000, "ps")
        for n in case["last"]:
            warn = len(rep.of(1, "HSTOB"))
            self.sqr.set_num_last_reqs(n)
            eq(self.sqr.get_num_last_reqs(), min(n, 1024), "get_num_last_reqs after set_num_last_reqs(%d)" % n)
            eq(len(rep.of(1, "HSTOB")) - warn, int(n > 1024), "warnings of set_num_last_reqs(%d)" % n)
        ts = [cocotb.start_soon(one(i, s)) for i, s in enumerate(case["seqs"])]
        limit = 60 + 6 * sum(len(s["steps"]) + len(s["fork"] or []) + len(s["fork2"] or []) for s in case["seqs"])
        for _ in range(limit):
            await Timer(500, "ps")
            for k, m in model.items():
                for w in m["waiting"].values():
                    if m["end"] is not None:
                        break
                    c = [r.get_name() for r in m["q"] if w == -1 or r.get_transaction_id() == w]
                    check(not c, "%s waits in get_response(%d) at %d although %r arrived", k, w, now(), c)
            await Timer(500, "ps")
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr = UVMSequencer("sqr", self)
        self.drv = Drv("drv", self)

    def connect(self, phase):
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
        self.drv.rsp_port.connect(self.sqr.rsp_export)
    top = comp_class("S03Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    eq(top_inst().sqr.get_num_rsps_received(), st["rsps"], "get_num_rsps_received")
    eq(top_inst().sqr.get_num_reqs_sent(), st["req"], "get_num_reqs_sent")
    for k, m in model.items():
        if m["spec"]["handler"]:
            eq([r.get_name() for r in m["handled"]], [r.get_name() for r in m["q"]], "responses handled by " + k)
            for a, b in zip(m["handled"], m["q"]):
                check(a is b, "handler of %s got another object", k)
    info = len([x for x in rep.of(0, "Sequencer")])
    check(st["drop"] <= info <= st["drop"] + st["amb"], "%d responses for finished sequences were dropped, %d reported", st["drop"], info)
    bad = [x for x in rep.msgs if x[0] >= 1 and "overflow" not in x[2] and x[1] != "HSTOB"]
    check(not bad, "unexpected report %r", bad[:2])
    over = len(rep.errors())
    check(st["overflow"] <= over <= st["overflow"] + st["amb"], "%d responses overflowed, %d errors", st["overflow"], over)
    return {"nontrivial": st["two"] or st["overtake"] or st["drop"] + st["overflow"] > 0, "rsps": st["rsps"], "got": st["got"], "concurrent": st["both"], "dropped": st["drop"] + st["overflow"]}


def top_inst():
    from uvm.base.uvm_root import UVMRoot
    from uvm.base.uvm_coreservice import UVMCoreService
    return UVMCoreService.get().get_root().find("uvm_test_top")
