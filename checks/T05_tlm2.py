from util import *

ID = "T05"
META = {
    "title": "TLM2 sockets carry every transport call to the far end and back",
    "statement": "For every set of initiators and targets joined by TLM2 sockets or transport ports, directly or through any number of pass-through sockets, each b_transport and nb_transport_fw call reaches exactly the connected target's implementation once, and each nb_transport_bw call made by a target exactly the connected initiator's implementation (the parent or the one given), with the same transaction, phase and delay objects and the result returned unchanged; b_transport returns when the target's does. A None delay is an error and the call is not forwarded. Delays accumulate in a UVMTLMTime without loss, in any scale and resolution, and cannot get below zero.",
    "over": ["configurations", "histories", "schedules"],
    "quant": "all mixes of blocking and non-blocking sockets and ports, pass-through depths on both sides, separate implementation objects, histories of calls in both directions, concurrent blocking calls, and time increments in any unit",
    "why": "Only two example testbenches use TLM2, each with one directly connected pair; pass-through sockets and separate implementations are never run.",
    "files": ["src/uvm/tlm2/uvm_tlm2_sockets.py", "src/uvm/tlm2/uvm_tlm2_sockets_base.py", "src/uvm/tlm2/uvm_tlm2_imps.py", "src/uvm/tlm2/uvm_tlm2_ports.py", "src/uvm/tlm2/uvm_tlm2_exports.py", "src/uvm/tlm2/uvm_tlm_time.py", "src/uvm/tlm2/uvm_tlm2_generic_payload.py"],
    "mech": [["socket connect", "src/uvm/tlm2/uvm_tlm2_sockets.py"], ["transport forwarding", "src/uvm/tlm2/uvm_tlm2_imps.py"], ["UVMTLMTime", "src/uvm/tlm2/uvm_tlm_time.py"]],
    "note": "Random socket chains in whole tests on a simulated kernel; every call is matched with the one received at the far end.",
}
RULE = "a call crossed two or more pass-through sockets, or two blocking calls were in progress at once"
N = (110, 10000)
ASSUMPTIONS = ["one non-blocking initiator socket per component"]


def strategy():
    def fn(g):
        links = []
        for _ in range(g.i(1, 4)):
            nb = g.b()
            links.append({"nb": nb, "style": g.pick(["sock", "sock", "port"]), "iw": g.i(0, 2), "tw": g.i(0, 2),
                          "isep": g.b(), "tsep": g.b(), "share": not nb and g.b(1, 3)})
        ops = [[g.i(0, 3), g.pick(["fw", "fw", "bw", "nodelay"]), g.i(0, 3), g.i(0, 2), g.pick([0, 1, 5]), g.i(0, 3), g.bits(64), g.b()]
               for _ in range(g.i(1, 14))]
        return {"links": links, "ops": ops, "early": g.b(),
                "old": g.b(), "time": [[g.pick([0, 1, 2, 2, 3, 4, 5, 6, 7]), g.i(0, 1000), g.pick([1e-12, 1e-9, 1e-6, 1e-3]), g.pick([1, 1.0, 0.001, 1000.0])] for _ in range(g.i(0, 6))],
                "res": g.pick([0, 1e-12, 1e-9, 1e-15])}
    return gen(fn, 200)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent
    import uvm.tlm2 as T2
    rep = Reports()
    st = {"calls": 0, "deep": 0, "busy": 0, "conc": 0}
    log = []
    PH = list(T2.uvm_tlm_phase_e)
    SY = list(T2.uvm_tlm_sync_e)

    class Imp:
        """Records the calls; answers as told."""
        def __init__(self, key):
            self.key = key

    async def b_transport(self, t, delay):
        log.append((self.key, "b", t, delay))
        st["busy"] += 1
        st["conc"] = max(st["conc"], st["busy"])
        if t.wait:
            await Timer(t.wait * 1000, "ps")
        delay.incr(t.extra, 1.0e-9)
        st["busy"] -= 1
        t.done = True

    def nb_transport_fw(self, t, p, delay):
        log.append((self.key, "fw", t, p, delay))
        return t.answer

    def nb_transport_bw(self, t, p, delay):
        log.append((self.key, "bw", t, p, delay))
        return t.answer
    M = {"b_transport": b_transport, "nb_transport_fw": nb_transport_fw, "nb_transport_bw": nb_transport_bw}
    Sep = type("Sep", (Imp,), dict(M))

    class SepC(UVMComponent):
        pass

    def mk(kind, name, parent, imp=None):
        k = getattr(T2, kind)
        return k(name, parent, imp) if imp is not None else k(name, parent)

    class End(UVMComponent):
        """One side of a link: 0..2 wrappers around the component with the socket."""
        def __init__(self, name, parent, l, init, n, key):
            super().__init__(name, parent)
            self.key, self.l, self.init = key, l, init
            self.inner = End("w", self, l, init, n - 1, key) if n else None
            k = "Nb" if l["nb"] else "B"
            side = "Initiator" if init else "Target"
            self.bw = None
            sep = l["isep" if init else "tsep"]
            if n:
                self.sep = self.inner.sep
                if l["style"] == "sock":
                    self.s = mk("UVMTLM%sPassthrough%sSocket" % (k, side), "sock", self)
                else:
                    self.s = mk("UVMTLM%sTransport%s%s" % (k, "Fw" if l["nb"] else "", "Port" if init else "Export"), "fw", self)
                    if l["nb"]:
                        self.bw = mk("UVMTLMNbTransportBw%s" % ("Export" if init else "Port"), "bw", self)
                return
            self.sep = None
            if sep and not (l["style"] == "port"):
                if init:
                    self.sep = type("SepI", (SepC,), dict(M))("sepi", self)
                    self.sep.key = key + ".sep"
                else:
                    self.sep = Sep(key + ".sep")
            if l["style"] == "sock":
                sep = self.sep if (l["nb"] or not init) else None
                self.s = mk("UVMTLM%s%sSocket" % (k, side), "sock", self, sep)
                if not (l["nb"] or not init):
                    self.sep = None
            else:
                self.s = mk("UVMTLM%sTransport%s%s" % (k, "Fw" if l["nb"] else "", "Port" if init else "Imp"), "fw", self)
                if l["nb"]:
                    self.bw = mk("UVMTLMNbTransportBw%s" % ("Imp" if init else "Port"), "bw", self)

        def connect_phase(self, phase):
            if self.inner:
                a, b = (self.inner, self) if self.init else (self, self.inner)
                a.s.connect(b.s)
                if self.bw:
                    b.bw.connect(a.bw)

        def leaf(self):
            return self.inner.leaf() if self.inner else self
    for n, f in M.items():
        setattr(End, n, f)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.i, self.t = [], []
        for n, l in enumerate(case["links"]):
            self.i.append(End("i%d" % n, self, l, True, l["iw"], "i%d" % n))
            share = [x for x in range(n) if l["share"] and not case["links"][x]["nb"] and case["links"][x]["style"] == l["style"]]
            self.t.append(self.t[share[0]] if share else End("t%d" % n, self, l, False, l["tw"], "t%d" % n))

    def connect(self, phase):
        for n in (range(len(self.i)) if case["early"] else reversed(range(len(self.i)))):
            i, t = self.i[n], self.t[n]
            i.s.connect(t.s)
            if i.bw:
                t.bw.connect(i.bw)

    def expect(dst, what, n, *args):
        key = dst.sep.key if dst.sep is not None else dst.key
        mine = [x for x in log if x[2] is args[0]]
        eq(len(mine), 1, what + ": calls received")
        eq(mine[0][:2], (key, n), what + ": received by")
        check(all(x is y for x, y in zip(mine[0][2:], args)), "%s: arguments changed: %r", what, mine[0])

    async def one(self, k, op):
        n, kind, ph, sy, wait, extra, addr, rd = op
        n %= len(self.i)
        l, i, t = case["links"][n], self.i[n].leaf(), self.t[n].leaf()
        tr = T2.UVMTLMGenericPayload("t%d" % k)
        tr.set_address(addr)
        (tr.set_read if rd else tr.set_write)()
        tr.wait, tr.extra, tr.answer, tr.done = wait, extra, SY[sy], False
        d = T2.UVMTLMTime("d")
        d.incr(2, 1.0e-9)
        p = PH[ph]
        deep = l["iw"] + l["tw"] >= 2
        what = "op %d on link %d (%s)" % (k, n, l)
        if kind == "nodelay":
            rep.msgs.clear()
            if l["nb"]:
                i.s.nb_transport_fw(tr, p, None)
            else:
                await i.s.b_transport(tr, None)
            check([m for m in rep.errors()], "%s: no error for a None delay", what)
            check(not [x for x in log if x[2] is tr], "%s: call with a None delay was forwarded", what)
            rep.msgs.clear()
            return
        st["calls"] += 1
        st["deep"] += deep
        if not l["nb"]:
            t0 = cocotb.utils.get_sim_time("ps")
            await i.s.b_transport(tr, d)
            expect(t, what, "b", tr, d)
            check(tr.done, "%s: b_transport returned before the target's", what)
            eq(cocotb.utils.get_sim_time("ps") - t0, wait * 1000, what + ": duration")
            check(abs(d.get_realtime(1.0e-9) - (2 + extra)) < 1e-6, "%s: delay %r", what, d.get_realtime(1.0e-9))
        elif kind == "fw":
            r = i.s.nb_transport_fw(tr, p, d)
            check(r is SY[sy], "%s: returned %r", what, r)
            expect(t, what, "fw", tr, p, d)
        else:
            src = t.bw if t.bw else t.s
            r = src.nb_transport_bw(tr, p, d)
            check(r is SY[sy], "%s: returned %r", what, r)
            expect(i, what, "bw", tr, p, d)
        eq(tr.get_address(), addr, what + ": address")
        eq([bool(tr.is_read()), bool(tr.is_write())], [rd, not rd], what + ": command")
        eq(tr.get_command(), T2.uvm_tlm_command_e.UVM_TLM_READ_COMMAND if rd else T2.uvm_tlm_command_e.UVM_TLM_WRITE_COMMAND, what)

    async def run_phase(self, phase):
        phase.raise_objection(self)
        ts = []
        for k, op in enumerate(case["ops"]):
            if op[1] in ("fw", "bw") and not case["links"][op[0] % len(self.i)]["nb"]:
                ts.append(cocotb.start_soon(one(self, k, op)))
            else:
                await one(self, k, op)
            if op[2] == 0:
                await Timer(1000, "ps")
        for t in ts:
            await t
        phase.drop_objection(self)
        st["end"] = 1
        # time arithmetic
        bad = [m for m in rep.msgs if m[0] >= 1 and m[1] != "Connection Warning"]
        check(not bad, "unexpected reports %r", bad[:3])
        import uvm.tlm2.uvm_tlm2_time as T2T
        Time = T2T.UVMTLMTime if case["old"] else T2.UVMTLMTime
        tm = Time("tm", case["res"])
        coarse = Time("coarse")
        Time.set_time_resolution(1.0e-9)
        late = Time("late")
        total = 0.0
        for op, n, secs, scaled in case["time"]:
            if op == 0:
                tm.reset()
                total = 0.0
            elif op == 1:
                tm.incr(-1.0, 1.0, secs)
                eq(len(rep.errors()), 1, "errors for a negative increment")
                rep.msgs.clear()
            elif op == 6 and case["old"]:
                tm.decr(n, scaled, secs)
                total -= n / scaled * secs
                if total < -1e-9 * max(1.0, n / scaled * secs):
                    eq([m[1] for m in rep.errors()], ["UVM/TLM/TOODECR"], "errors for a decrement below zero")
                    total = 0.0
                elif total <= 1e-9 * max(1.0, n / scaled * secs):     # as good as zero
                    tm.reset()
                    total = 0.0
                rep.msgs.clear()
            elif op == 7 and case["old"]:
                tm.set_abstime(n, secs)
                total = n * secs
            else:
                # n is in units where `scaled` stands for `secs` seconds
                tm.incr(n, scaled, secs)
                total += n / scaled * secs
            got = tm.get_realtime(scaled, secs)
            want = total * scaled / secs
            check(abs(got - want) <= 1e-6 * max(1.0, abs(want)), "time %r, expected %r", got, want)
            if case["old"]:
                got, want = tm.get_abstime(secs), total / secs
                check(abs(got - want) <= 1e-6 * max(1.0, abs(want)), "get_abstime() %r, expected %r", got, want)
        for t in (coarse, late):    # the resolution was changed between the creation of these two
            t.incr(5, 1, 1e-6)
            check(abs(t.get_realtime(1, 1e-9) - 5000) < 1e-3, "5 us incremented: %r ns", t.get_realtime(1, 1e-9))
    top = comp_class("T05Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    check("end" in st, "the test did not finish: %r", rep.errors()[:3])
    return {"nontrivial": bool(st["deep"] or st["conc"] > 1), "calls": st["calls"], "deep": st["deep"]}
