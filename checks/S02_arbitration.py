from util import *

ID = "S02"
META = {
    "title": "Sequencer arbitration grants the right waiting sequence, and only relevant ones",
    "statement": "For every set of concurrently requesting sequences, an idle driver request is granted to the oldest waiting request whose sequence is relevant under UVM_SEQ_ARB_FIFO, whatever the priorities; under UVM_SEQ_ARB_RANDOM and WEIGHTED to one of the waiting relevant requests, each having a chance (equal, or proportional to its priority); under STRICT_FIFO and STRICT_RANDOM to the oldest or any of those with the highest priority; and under USER to the one user_priority_arbitration() picks among exactly these. The priority is the one given with the item, else the one its sequence had when it asked. A sequence whose is_relevant() is 0 is never granted and never blocks the others; when it becomes relevant, or when another request arrives, the waiting driver is served at once. Nothing is granted twice or lost, and switching the arbitration mode takes effect at the next grant.",
    "over": ["histories", "schedules"],
    "quant": "all sets of sequences, request times, priorities, relevance changes over time, arbitration modes and mode switches, and driver timing",
    "why": "No test uses is_relevant or any arbitration mode but the default; the order of grants depends on simultaneous requests and relevance changes.",
    "files": ["src/uvm/seq/uvm_sequencer_base.py", "src/uvm/seq/uvm_sequence_base.py"],
    "mech": [["set_arbitration / user_priority_arbitration", "src/uvm/seq/uvm_sequencer_base.py"], ["m_choose_next_request / m_wait_for_available_sequence", "src/uvm/seq/uvm_sequencer_base.py"], ["is_relevant / wait_for_relevant", "src/uvm/seq/uvm_sequence_base.py"]],
    "note": "Whole tests on a simulated kernel; every grant is compared with a request-queue model.",
}
RULE = "a grant was decided between two or more waiting requests, or an irrelevant request was skipped or became relevant"
N = (100, 10000)
ASSUMPTIONS = ["priorities are positive", "weights are judged by counts over many grants", "relevance does not change in the instant of a grant"]


def strategy():
    def fn(g):
        if g.b(1, 24):      # always three or four waiting: every place in the queue must get its chance
            n = g.pick([3, 4])
            mode, pri = g.pick([1, 1, 2, 2, 4]), g.pick([-1, 1])
            return {"seqs": [{"at": 0, "n": 26, "gap": [0, 0, 0], "pri": pri, "rel": [], "own": -1, "chg": []} for _ in range(n)], "mode": mode, "switch": [],
                    "drv": g.b(1, 3), "d1": [1] * 4, "d2": [1] * 5, "start": 3, "fair": n, "user": 0}
        if g.b(1, 30):      # two always waiting, one three times as heavy
            w = g.pick([1, 10, 100])
            a = [{"at": 0, "n": 110, "gap": [0, 0, 0], "pri": p if g.b() else -1, "own": p, "rel": [], "chg": []} for p in (w, 3 * w)]
            return {"seqs": a if g.b() else a[::-1], "mode": 1, "switch": [], "drv": False, "d1": [1] * 4, "d2": [0] * 5, "start": 3, "heavy": 3 * w, "user": 0}
        seqs = [{"at": g.pick([0, 0, 1, 2, 5]), "n": g.pick([1, 2, 3, 4, 8, 14]), "gap": [g.pick([0, 0, 1, 3]) for _ in range(3)],
                 "pri": g.pick([-1, -1, 100, 1, 500]), "own": g.pick([-1, -1, 1, 99, 400]), "chg": [[g.i(1, 9), g.pick([1, 101, 600])] for _ in range(g.i(0, 2))], "rel": [g.i(1, 9) for _ in range(g.i(0, 5))] if g.b() else []}
                for _ in range(g.i(2, 5))]
        return {"seqs": seqs, "mode": g.i(0, 5), "user": g.i(0, 3), "switch": [[g.i(1, 12), g.i(0, 5)] for _ in range(g.i(0, 2))],
                "drv": g.b(1, 3), "d1": [g.pick([0, 1, 1, 2]) for _ in range(4)], "d2": [g.pick([0, 0, 0, 1, 4]) for _ in range(5)],
                "start": g.pick([0, 0, 3])}
    return gen(fn, 200)


def run(case):
    import cocotb
    from cocotb.triggers import Timer, Event
    from uvm import UVMComponent, UVMSequence, UVMSequenceItem, UVMSequencer, UVMDriver
    from uvm.base.uvm_object_globals import (UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM, UVM_SEQ_ARB_WEIGHTED, UVM_SEQ_ARB_STRICT_FIFO,
                                             UVM_SEQ_ARB_STRICT_RANDOM, UVM_SEQ_ARB_USER)
    MODES = [UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_WEIGHTED, UVM_SEQ_ARB_RANDOM, UVM_SEQ_ARB_STRICT_FIFO, UVM_SEQ_ARB_STRICT_RANDOM, UVM_SEQ_ARB_USER]
    rep = Reports()
    st = {"choices": 0, "skipped": 0, "woken": 0, "done": 0, "ask": False, "grants": 0, "busy": False, "user": 0}
    queue, mode, places, heavy, picked = [], [case["mode"]], [], [], []
    now = lambda: cocotb.utils.get_sim_time("ps")

    class Seq(UVMSequence):
        def is_relevant(self):
            return int(self.rel)

        async def wait_for_relevant(self):
            while not self.rel:
                self.ev.clear()
                await self.ev.wait()

        async def change(self):
            await Timer(125, "ps")
            for d, p in self.spec["chg"]:
                await Timer(d * 1000, "ps")
                self.set_priority(p)
                self.own = p
                eq(self.get_priority(), p, "get_priority()")

        def prio(self):
            return self.asked_pri

        async def toggle(self):
            await Timer(500, "ps")
            for d in self.spec["rel"]:
                await Timer(d * 1000, "ps")
                self.set_rel(not self.rel)
            # in the end every sequence is relevant
            await Timer(20000, "ps")
            self.set_rel(True)

        def set_rel(self, v):
            self.rel, self.changed = v, now()
            if v:
                self.ev.set()
                st["woken"] += self in queue

        def pre_do(self, is_item):
            check(self in queue, "%s was granted although it has no request", self.get_name())
            check(self.rel or self.changed == now(), "%s was granted although it is not relevant", self.get_name())
            check(not st["busy"], "%s was granted while another item is being driven", self.get_name())
            st["choices"] += len(queue) > 1
            st["skipped"] += queue[0] is not self
            # whoever asked or changed its relevance in this very instant may have come after the decision
            rel = [s for s in queue if s is self or (s.rel and now() not in (s.asked, s.changed))]
            if mode[0] in (3, 4):
                top = max(s.prio() for s in rel)
                eq(self.prio(), top, "priority of %s, which was granted" % self.get_name())
                rel = [s for s in rel if s.prio() == top]
            if mode[0] in (0, 3):
                check(rel[0] is self, "%s was granted but %s asked earlier", self.get_name(), rel[0].get_name())
            if mode[0] == 5 and case["user"]:
                asked = picked and picked[1] == now()
                check(asked or sum(s.asked != now() for s in rel) < 2, "%s was granted without asking user_priority_arbitration()", self.get_name())
                check(not asked or picked[0] in (self, None), "%s was granted but the user arbitration picked another one", self.get_name())
            del picked[:]
            heavy.append((len(queue), self.prio()))
            places.append((len(queue), queue.index(self)))
            queue.remove(self)
            st["busy"] = True
            st["grants"] += 1

        async def body(self):
            for k in range(self.spec["n"]):
                gap = self.spec["gap"][k % 3]
                if gap:
                    await Timer(gap * 1000, "ps")
                it = UVMSequenceItem("i%d" % k)
                it.owner, it.k = self, k
                self.asked, self.asked_pri = now(), self.own if self.spec["pri"] == -1 else self.spec["pri"]
                queue.append(self)
                await self.start_item(it, self.spec["pri"])
                check(self not in queue, "start_item returned without a grant")
                await self.finish_item(it)

    class Sqr(UVMSequencer):
        def user_priority_arbitration(self, avail_sequences):
            rel, n, k = [s for s in queue if s.rel], avail_sequences.size(), self.choose(avail_sequences.size())
            sure = not any(s.changed == now() for s in queue)
            if sure:
                old = sum(s.asked != now() for s in rel)
                check(max(2, old) <= n <= len(rel), "%d requests were offered to user_priority_arbitration() of %d to %d", n, old, len(rel))
            st["user"] += 1
            picked[:] = [rel[k] if sure else None, now()]
            return avail_sequences[k]

    class Drv(UVMDriver):
        async def run_phase(self, phase):
            await Timer(case["start"] * 1000, "ps")
            k, p = 0, self.seq_item_port
            while True:
                t = []
                if case["drv"]:
                    await p.try_next_item(t)
                    if not t:
                        k += 1
                        await Timer(1000, "ps")
                        continue
                else:
                    st["ask"] = True
                    await p.get_next_item(t)
                    st["ask"] = False
                if case["d1"][k % 4]:
                    await Timer(case["d1"][k % 4] * 1000, "ps")
                st["busy"] = False
                p.item_done()
                if case["d2"][k % 5]:
                    await Timer(case["d2"][k % 5] * 1000, "ps")
                k += 1

    async def run_phase(self, phase):
        phase.raise_objection(self)
        self.sqr.set_arbitration(MODES[mode[0]])

        async def one(i, s):
            q = Seq("s%d" % i)
            q.spec, q.rel, q.ev, q.changed = s, True, Event("rel"), -1
            q.own = 100 if s["own"] == -1 else s["own"]
            cocotb.start_soon(q.toggle())
            if s["at"]:
                await Timer(s["at"] * 1000, "ps")
            if s["chg"]:
                cocotb.start_soon(q.change())
            await q.start(self.sqr, None, s["own"])
            st["done"] += 1
        for i, s in enumerate(case["seqs"]):
            cocotb.start_soon(one(i, s))
        sw = dict((a, b) for a, b in case["switch"])
        for slot in range(900):
            await Timer(250, "ps")
            if slot in sw:
                mode[0] = sw[slot]
                self.sqr.set_arbitration(MODES[mode[0]])
                eq(self.sqr.get_arbitration(), MODES[mode[0]], "get_arbitration()")
            for _ in range(2):
                rel = [s.get_name() for s in queue if s.rel]
                check(not (st["ask"] and rel and not st["busy"]), "at %d the driver waits although %r wait and are relevant", now(), rel)
                if _ == 0:
                    await Timer(500, "ps")
            await Timer(250, "ps")
            if st["done"] == len(case["seqs"]):
                break
        eq(st["done"], len(case["seqs"]), "sequences that finished (waiting: %r)" % [s.get_name() for s in queue])
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.sqr = (Sqr if case["user"] else UVMSequencer)("sqr", self)
        self.sqr.choose = lambda n: [0, n - 1, n // 2, 0][case["user"]]
        self.drv = Drv("drv", self)

    def connect(self, phase):
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
    top = comp_class("S02Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    n = case.get("fair")
    if n:
        first = [p for k, p in places if k == n]
        check(len(first) >= 50, "only %d grants between %d requests", len(first), n)
        for p in range(n):
            check(p in first, "in %d random grants between %d requests, number %d in order of request was never chosen", len(first), n, p)
    if case.get("heavy"):
        both = [p for k, p in heavy if k == 2]
        n = sum(p == case["heavy"] for p in both)
        check(len(both) >= 100, "only %d grants between two requests", len(both))
        check(0.5 * len(both) < n < len(both), "in %d weighted grants a request three times as heavy as the other was chosen %d times", len(both), n)
    eq(st["grants"], sum(s["n"] for s in case["seqs"]), "grants")
    rep.none_bad()
    return {"nontrivial": bool(st["choices"] or st["woken"]), "grants": st["grants"], "choices": st["choices"],
            "skipped": st["skipped"], "woken": st["woken"]}


CASES = [{"seqs": [{"at": 0, "n": 1, "gap": [3, 1, 1], "pri": -1, "own": -1, "chg": [], "rel": [1]}, {"at": 1, "n": 14, "gap": [1, 1, 1], "pri": -1, "own": -1, "chg": [], "rel": []}],
          "mode": 0, "user": 0, "switch": [], "drv": False, "d1": [0, 0, 0, 0], "d2": [0, 0, 0, 0, 0], "start": 0}]
