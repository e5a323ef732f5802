from util import *

ID = "T04"
META = {
    "title": "Port connections are checked and resolved to exactly the right implementations",
    "statement": "For every set of TLM ports, exports and imps and connect calls, exactly the illegal connections are errors: to None or itself, to a provider missing a method of the interface, from an imp, or from an export to a port. Each legal one warns exactly when the hierarchy levels do not fit. After elaboration every port resolves to exactly the distinct implementations it reaches, an error is reported exactly when their number violates the minimum or maximum size, and the test starts only if there were no errors; every interface call through a port then reaches one resolved implementation once, with its arguments and result unchanged.",
    "over": ["configurations", "histories"],
    "quant": "all 21 TLM1 interface kinds, hierarchies, acyclic connection graphs over several hops, duplicate connections, minimum and maximum sizes and illegal connect calls",
    "why": "Tests connect a few matching pairs; a wrong interface mask or a wrong count only shows for particular pairs of kinds or graphs.",
    "files": ["src/uvm/base/uvm_port_base.py", "src/uvm/tlm1/uvm_ports.py", "src/uvm/tlm1/uvm_exports.py", "src/uvm/tlm1/uvm_imps.py", "src/uvm/tlm1/uvm_tlm_imps.py", "src/uvm/macros/uvm_tlm_defines.py"],
    "mech": [["UVMPortBase.connect / resolve_bindings", "src/uvm/base/uvm_port_base.py"], ["interface masks", "src/uvm/macros/uvm_tlm_defines.py"], ["method forwarding", "src/uvm/tlm1/uvm_tlm_imps.py"]],
    "note": "Random port graphs in whole tests against a graph model with explicit method sets per interface.",
}
RULE = "an illegal connection was attempted, a size bound was violated, or a call went over two or more hops"
N = (150, 16000)
ASSUMPTIONS = ["connection graphs have no cycles"]
IF = {}
for _k in ["put", "get", "peek", "transport"]:
    IF["blocking_" + _k], IF["nonblocking_" + _k] = {"b" + _k}, {"n" + _k}
    IF[_k] = {"b" + _k, "n" + _k}
for _p, _c in [("blocking_", "b"), ("nonblocking_", "n")]:
    IF[_p + "get_peek"] = {_c + "get", _c + "peek"}
    for _m in ("master", "slave"):
        IF[_p + _m] = {_c + "get", _c + "peek", _c + "put", _m}
for _m in ("get_peek", "master", "slave"):
    IF[_m] = IF["blocking_" + _m] | IF["nonblocking_" + _m]
KINDS = sorted(IF)
METHODS = {"bput": ["put"], "nput": ["try_put", "can_put"], "bget": ["get"], "nget": ["try_get", "can_get"],
           "bpeek": ["peek"], "npeek": ["try_peek", "can_peek"], "btransport": ["transport"], "ntransport": ["nb_transport"]}


def strategy():
    def fn(g):
        nc = g.i(1, 5)
        comps = [g.i(0, 9) for _ in range(nc)]                # parent index (0 = top)
        base = g.pick(KINDS)
        near = [k for k in KINDS if IF[k] <= IF[base] or IF[base] <= IF[k]]
        clean = g.b()

        def kind():
            return base if clean else g.pick(near) if g.b(5, 6) else g.pick(KINDS)
        nodes = [{"t": "port", "c": g.i(0, nc), "k": kind(), "min": g.pick([1, 1, 0, 2]), "max": g.pick([1, 1, 2, 3, -1])}
                 for _ in range(g.i(1, 4))]
        nodes += [{"t": "export", "c": g.i(0, nc), "k": kind(), "min": g.pick([1, 1, 0]), "max": g.pick([1, 2, -1])}
                  for _ in range(g.i(0, 3))]
        nodes += [{"t": "imp", "c": g.i(0, nc), "k": kind()} for _ in range(g.i(1, 3))]
        if clean:
            for n in nodes:
                if n["t"] != "imp":
                    n["min"], n["max"] = 0, -1
                else:
                    n["k"] = g.pick([k for k in KINDS if IF[base] <= IF[k]])
            ni = len([n for n in nodes if n["t"] != "imp"])
            con = []
            for _ in range(g.i(1, 9)):
                x = g.i(0, ni - 1)
                con.append([x, g.i(x + 1, len(nodes) - 1), 0])
            return {"comps": comps, "nodes": nodes, "con": con}
        con = [[g.i(0, 9), g.i(0, 9), g.pick([0, 0, 0, 0, 1, 2, 3])] for _ in range(g.i(1, 9))]
        return {"comps": comps, "nodes": nodes, "con": con}
    return gen(fn, 200)


def run(case):
    from uvm import UVMComponent
    from uvm.tlm1 import uvm_ports, uvm_exports, uvm_imps
    rep = Reports()

    def cls(t, kind):
        if t == "export" and kind == "blocking_slave":
            return uvm_exports.uvm_blocking_slave_export
        n = "".join(x.capitalize() for x in kind.split("_")).replace("Nonblocking", "NonBlocking")
        return getattr({"port": uvm_ports, "export": uvm_exports, "imp": uvm_imps}[t], "UVM%s%s" % (n, t.capitalize()))
    nodes = [dict(n, i=i) for i, n in enumerate(case["nodes"])]
    calls = []
    st = {"errors": 0, "warn": 0, "bad": 0, "hops": 0, "calls": 0}

    class C(UVMComponent):
        pass

    def target(i):
        """The component implementing imp i: every call is recorded."""
        class T(UVMComponent):
            async def put(self, t):
                calls.append((i, "put", t))

            async def get(self, t):
                calls.append((i, "get", t))
                t.append("g%d" % i)

            async def peek(self, t):
                calls.append((i, "peek", t))
                t.append("p%d" % i)

            def try_put(self, t):
                calls.append((i, "try_put", t))
                return i + 1

            def try_get(self, t):
                calls.append((i, "try_get", t))
                t.append("tg%d" % i)
                return i + 2

            def try_peek(self, t):
                calls.append((i, "try_peek", t))
                return i + 3

            def can_put(self):
                calls.append((i, "can_put"))
                return i + 4

            def can_get(self):
                calls.append((i, "can_get"))
                return i + 5

            def can_peek(self):
                calls.append((i, "can_peek"))
                return i + 6

            async def transport(self, req, rsp):
                calls.append((i, "transport", req, rsp))
                rsp.append("r%d" % i)

            def nb_transport(self, req, rsp):
                calls.append((i, "nb_transport", req, rsp))
                return i + 7
        return T
    RET = {"try_put": 1, "try_get": 2, "try_peek": 3, "can_put": 4, "can_get": 5, "can_peek": 6, "nb_transport": 7}
    OUT = {"get": "g", "peek": "p", "try_get": "tg", "transport": "r"}
    prov, parent = {}, {}

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        self.cs = [self]
        for i, p in enumerate(case["comps"]):
            pa = self.cs[p % len(self.cs)]
            self.cs.append(C("c%d" % i, pa))
        used = {}
        for n in nodes:
            c = self.cs[n["c"]]
            # names repeat across components, as they do in real environments
            no = used[n["c"], n["t"]] = used.get((n["c"], n["t"]), -1) + 1
            if n["t"] == "imp":
                # the imp is owned by (and delegates to) a component of its own
                c = target(n["i"])("t%d" % no, c)
                n["o"] = cls("imp", n["k"])("imp", c)
            else:
                n["o"] = cls(n["t"], n["k"])("%s%d" % (n["t"], no), c, n["min"], n["max"])
            n["comp"] = c
            prov[n["i"]] = []

    def misfit(a, b):
        """The two are connected across the wrong hierarchy levels."""
        pa, pb = a["comp"], b["comp"]
        ga, gb = pa.get_parent(), pb.get_parent()
        if a["t"] == "port":
            return ga is not pb if b["t"] == "port" else ga is not gb
        return pa is not gb

    def connect(self, phase):
        for x, y, odd in case["con"]:
            a = nodes[x % len(nodes)]
            b = nodes[y % len(nodes)]
            if a["i"] > b["i"]:
                a, b = b, a
            if odd == 3:
                a, b = b, a
                # only what is rejected may run against the order (no cycles)
                if IF[a["k"]] <= IF[b["k"]] and a["t"] == b["t"] and a["t"] != "imp":
                    continue
            rep.msgs.clear()
            a["o"].connect(None if odd == 1 else a["o"] if odd == 2 else b["o"])
            illegal = odd in (1, 2) or a is b or not IF[a["k"]] <= IF[b["k"]] or a["t"] == "imp" or (a["t"] == "export" and b["t"] == "port")
            what = "connect %s%d (%s) -> %s%d (%s), mode %d" % (a["t"], a["i"], a["k"], b["t"], b["i"], b["k"], odd)
            eq([m[:2] for m in rep.errors()], [(2, "Connection Error")] * illegal, what + ": errors")
            if illegal and odd not in (1, 2) and a is not b:
                check(b["o"].get_full_name() in rep.errors()[0][2], "%s: the error %r does not name the provider", what, rep.errors())
            if illegal:
                st["bad"] += 1
                st["errors"] += 1
                continue
            eq([m[:2] for m in rep.warnings()], [(1, "Connection Warning")] * misfit(a, b), what + ": warnings")
            check(all(b["o"].get_full_name() in m[2] for m in rep.warnings()), "%s: the warning %r does not name the provider", what, rep.warnings())
            if b["i"] not in prov[a["i"]]:
                prov[a["i"]].append(b["i"])
        rep.msgs.clear()

    def reach(i):
        return {i} if nodes[i]["t"] == "imp" else set().union(*[reach(j) for j in prov[i]])

    def dist(i):
        return 0 if nodes[i]["t"] == "imp" else 1 + max([dist(j) for j in prov[i]] or [0])

    def resolve(self):
        want = 0
        for n in nodes:
            r = reach(n["i"])
            what = "%s%d" % (n["t"], n["i"])
            o = n["o"]
            eq(o.size(), len(r), what + ": size()")
            eq({o.get_if(j).get_full_name() for j in range(o.size())}, {nodes[j]["o"].get_full_name() for j in r}, what + ": implementations")
            check(all(any(o.get_if(j) is m["o"] for m in nodes) for j in range(o.size())), what + ": get_if returned a foreign object")
            for j in (-1, -len(r), len(r)):
                if j < 0 or j >= len(r):
                    warned = len(rep.warnings())
                    check(j == 0 or o.get_if(j) is None, "%s: get_if(%d) returned something", what, j)
                    eq(len(rep.warnings()) - warned, int(j != 0), "%s: warnings for get_if(%d)" % (what, j))
            out = {}
            o.get_connected_to(out)
            eq(out, {nodes[j]["o"].get_full_name(): nodes[j]["o"].get_comp() for j in prov[n["i"]]}, what + ": get_connected_to")
            out = {}
            o.get_provided_to(out)
            eq(set(out), {nodes[j]["o"].get_full_name() for j in prov if n["i"] in prov[j]}, what + ": get_provided_to")
            eq([bool(o.is_port()), bool(o.is_export()), bool(o.is_imp())], [n["t"] == t for t in ("port", "export", "imp")], what + ": type")
            if n["t"] != "imp":
                eq([o.min_size(), o.max_size(), bool(o.is_unbounded())], [n["min"], n["max"], n["max"] == -1], what + ": bounds")
                want += len(r) < n["min"]
                want += n["max"] != -1 and len(r) > n["max"]
        errs = [m for m in rep.errors() if m[1] == "Connection Error"]
        eq(len(errs), want, "size errors %r" % errs)
        st["errors"] += want
        st["bad"] += want
        st["resolved"] = 1

    async def run_phase(self, phase):
        phase.raise_objection(self)
        st["ran"] = 1
        for n in nodes:
            if not reach(n["i"]):
                continue
            first = [m["i"] for m in nodes if m["o"] is n["o"].get_if(0)][0]
            for f in sorted(IF[n["k"]]):
                for m in METHODS.get(f, []):
                    calls.clear()
                    fn = getattr(n["o"], m)
                    args = [] if m.startswith("can_") else ["req", []] if "transport" in m else [[]] if "put" not in m else ["item"]
                    r = fn(*args)
                    if hasattr(r, "__await__"):
                        r = await r
                    what = "%s%d.%s()" % (n["t"], n["i"], m)
                    eq(len(calls), 1, what + ": calls")
                    eq(calls[0][:2], (first, m), what + ": call")
                    check(all(x is y for x, y in zip(calls[0][2:], args)), "%s: arguments changed", what)
                    if m in RET:
                        eq(r, first + RET[m], what + ": result")
                    if m in OUT:
                        eq(args[-1], [OUT[m] + str(first)], what + ": output")
                    st["calls"] += 1
                    st["hops"] += dist(n["i"]) > 1
        phase.drop_objection(self)
    top = comp_class("T04Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase, "resolve_bindings": resolve})
    try:
        uvm_run(top)
    except Violation:
        raise
    except Exception as e:
        check(st["errors"] and "UVMFinishError" in type(e).__name__, "%s: %s", type(e).__name__, e)
    check("resolved" in st, "connections were not resolved")
    eq("ran" in st, not st["errors"], "the test was run")
    eq(len([m for m in rep.msgs if m[0] == 3]), int(bool(st["errors"])), "fatal errors")
    return {"nontrivial": bool(st["bad"] or st["hops"]), "calls": st["calls"], "bad": st["bad"]}
