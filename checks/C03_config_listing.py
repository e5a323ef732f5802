from util import *
import io
import re

ID = "C03"
META = {
    "title": "Configuration listings show every visible setting and who used it",
    "statement": "For every history of configuration and resource settings and lookups, print_config() of a component lists exactly the settings whose scope matches its path, each with its name and current value, recursing into all its children when asked, and the pool's dump lists every setting. With the audit flag each setting is followed by the number of reads and writes by every accessor with the time of the last of each, as made while auditing was on (writing the value a setting already has is no write), and check_config_usage() reports exactly the settings that were written but never read. Listing changes nothing.",
    "over": ["histories"],
    "quant": "all component trees, histories of UVMConfigDb.set/get and UVMResourceDb.set with glob patterns, contexts and accessors, times, auditing switched on and off, and listing points",
    "why": "No test lists the configuration; what a listing must show depends on the whole history of settings, winners and accessors.",
    "files": ["src/uvm/base/uvm_resource.py", "src/uvm/base/uvm_component.py", "src/uvm/base/uvm_config_db.py"],
    "mech": [["UVMComponent.print_config / check_config_usage", "src/uvm/base/uvm_component.py"], ["UVMResourcePool.print_resources / find_unused_resources / dump", "src/uvm/base/uvm_resource.py"], ["UVMResourceBase.record_read_access / record_write_access / print_accessors", "src/uvm/base/uvm_resource.py"]],
    "note": "Histories in the run phase; the printed text is parsed back and compared with a model of settings and accesses.",
}
RULE = "a listing showed three or more settings, and one was read by two accessors or an audit was shown after auditing had been off"
N = (150, 15000)
ASSUMPTIONS = ["settings are made in the run phase (last setting wins)", "scope patterns are globs; values print on one line", "the order of the listed settings is not judged"]
NAMES = ["a", "ab", "b"]
FIELDS = ["f", "g", "bf"]


def node(g, depth):
    n = {"name": g.pick(NAMES), "kids": []}
    if depth:
        for k in g.some(0 if depth < 2 else 1, 3, lambda: node(g, depth - 1)):
            if k["name"] not in [x["name"] for x in n["kids"]]:
                n["kids"].append(k)
    return n


def pat(g, absolute):
    p = ".".join(g.some(0, 2, lambda: g.pick(NAMES)))
    if not absolute:
        return g.pick(["", "*", p, p, p + "*", p + ".*" if p else "*"])
    return g.pick(["*", "uvm_test_top*", "uvm_test_top", "*" + p, "uvm_test_top." + p if p else "*", "uvm_test_top.?" + p[1:]])


def op(g):
    k = g.i(0, 15)
    o = {"dt": g.pick([0, 0, 1, 2]), "who": g.i(0, 12), "f": g.pick(FIELDS)}
    if k <= 4:
        root = g.b(1, 3)
        o.update(k="set", root=root, pat=pat(g, root), v=g.pick([g.i(0, 99), "s%d" % g.i(0, 9), [g.i(0, 3)], "two words", -g.i(0, 9), ""]))
    elif k <= 6:
        o.update(k="rset", pat=pat(g, True), v=g.i(100, 199), acc=g.b(2, 3))
    elif k <= 10:
        o.update(k="get", root=g.b(1, 4), by=g.i(0, 12))
    elif k == 11:
        o.update(k="audit", on=g.b(2, 3))
    elif k <= 13:
        o.update(k="print", rec=g.b(), audit=g.b(), alt=g.b(1, 3))
    elif k == 14:
        o.update(k="usage")
    else:
        o.update(k="dump", audit=g.b())
    return o


def strategy():
    return gen(lambda g: {"tree": node(g, 3), "ops": g.some(3, 25, lambda: op(g))}, 400)


LINE = re.compile(r"^ ?(\w+) \[(.*?)\] : \(.*?\) ?(.*?) *$")
HEAD = re.compile(r"^UVM_INFO .*: (\S+) \[(CFGPRT|CFGNRD|UVM/RESOURCE/\w+)\] ?(.*)$")
ACC = re.compile(r"^(\S*) reads: (\d+) @ ([\d.]+)  writes: (\d+) @ ([\d.]+)$")


def parse(text):
    """-> list of sections [component, id, [(name, value, sorted accessor rows)], none?]"""
    out = [[None, None, [], 0]]
    inacc = False
    for ln in text.split("\n"):
        h = HEAD.match(ln)
        if h:
            inacc = False
            if h.group(2) in ("CFGPRT", "CFGNRD", "UVM/RESOURCE/DUMP"):
                out.append([h.group(1), h.group(2), [], 0])
            elif h.group(2) == "UVM/RESOURCE/PRINT":
                eq(h.group(3).strip(), "<none>", "a print message")
                out[-1][3] += 1
            else:
                inacc = True
                ln = h.group(3)
        a = ACC.match(ln)
        check(a or not (h and inacc), "unreadable audit row %r", ln)
        if inacc and a:
            out[-1][2][-1][2].append((a.group(1), int(a.group(2)), float(a.group(3)), int(a.group(4)), float(a.group(5))))
        elif not h and ln.strip() and not ln.startswith("=== "):
            m = LINE.match(ln)
            check(m, "unreadable line %r in a listing", ln)
            out[-1][2].append((m.group(1), m.group(3), []))
    return [s[:2] + [sorted((n, v, sorted(a)) for n, v, a in s[2])] + s[3:] for s in out[1:]]


def run(case):
    from uvm import UVMConfigDb, UVMComponent
    from uvm.base.uvm_resource import UVMResourceOptions, UVMResourcePool
    from uvm.base.uvm_resource_db import UVMResourceDb
    from uvm.base.uvm_coreservice import UVMCoreService
    from cocotb.triggers import Timer
    rep = Reports()
    comps = []
    classes = []
    table = {}           # key -> {"pat", "f", "v", "rank", "acc": {name: [reads, time, writes, time]}}
    st = {"stamp": 0, "big": 0, "two": 0, "off": 0, "lists": 0, "lines": 0}
    auditing = [True]

    def make(spec, top):
        for k in spec["kids"]:
            make(k, False)

        def build_phase(self, phase):
            comps.append(self)
            for k in spec["kids"]:
                k["cls"](k["name"], self)

        m = {"build_phase": build_phase}
        if top:
            m["run_phase"] = run_phase
        cname = "VcTop" if top else "Vc%d" % len(classes)
        classes.append(cname)
        spec["cls"] = comp_class(cname, m)

    def touch(e, who, col):
        if auditing[0]:
            a = e["acc"].setdefault(who, [0, 0.0, 0, 0.0])
            a[col] += 1
            a[col + 1] = simkernel.now() / 1000.0
        else:
            st["off"] += 1

    def row(e, audit):
        return (e["f"], str(e["v"]).strip(), sorted((n,) + tuple(a) for n, a in e["acc"].items()) if audit else [])

    def listing(rows, got, what):
        st["lists"] += 1
        st["lines"] += len(rows)
        st["big"] += len(rows) >= 3
        eq(got, sorted(rows), what)

    def visible(c):
        return [e for e in table.values() if glob_match(e["pat"], c.get_full_name())]

    async def run_phase(self, phase):
        phase.raise_objection(self)
        top = UVMCoreService.get().get_root()
        for n, o in enumerate(case["ops"]):
            if o["dt"]:
                await Timer(o["dt"], "ns")
            c = comps[o["who"] % len(comps)]
            path = c.get_full_name()
            if o["k"] == "set":
                cntxt, cp = (None, "") if o["root"] else (c, path)
                UVMConfigDb.set(cntxt, o["pat"], o["f"], o["v"])
                full = cp if o["pat"] == "" else (o["pat"] if cp == "" else cp + "." + o["pat"])
                st["stamp"] += 1
                e = table.setdefault((cp, full, o["f"]), {"pat": full, "f": o["f"], "acc": {}, "v": run})
                if isinstance(o["v"], list) or e["v"] != o["v"]:        # (writing the value it has is no write)
                    touch(e, cp, 2)
                e["v"], e["rank"] = o["v"], st["stamp"]
            elif o["k"] == "rset":
                UVMResourceDb.set(o["pat"], o["f"], o["v"], c if o["acc"] else None)
                st["stamp"] += 1
                e = table[n] = {"pat": o["pat"], "f": o["f"], "acc": {}, "v": o["v"], "rank": -st["stamp"]}
                if o["acc"]:
                    touch(e, path, 2)
            elif o["k"] == "get":
                got = []
                ok = UVMConfigDb.get(None if o["root"] else c, path if o["root"] else "", o["f"], got)
                m = [e for e in visible(c) if e["f"] == o["f"]]
                eq(bool(ok), bool(m), "get(%r) at %s found something" % (o["f"], path))
                if m:
                    e = max(m, key=lambda e: e["rank"])
                    eq(got, [e["v"]], "get(%r) at %s" % (o["f"], path))
                    touch(e, "" if o["root"] else path, 0)
                    st["two"] += sum(1 for a in e["acc"].values() if a[0]) > 1
            elif o["k"] == "audit":
                (UVMResourceOptions.turn_on_auditing if o["on"] else UVMResourceOptions.turn_off_auditing)()
                auditing[0] = o["on"]
                eq(bool(UVMResourceOptions.is_auditing()), o["on"], "is_auditing()")
            else:
                what = "op %d: %s of %s" % (n, o["k"], path)
                with Capture() as cap:
                    rep.server.set_logger(print)
                    try:
                        if o["k"] == "print":
                            if o["audit"] and o["alt"]:
                                c.print_config_with_audit(o["rec"])
                            else:
                                c.print_config(o["rec"], o["audit"])
                        elif o["k"] == "usage":
                            c.check_config_usage()
                        else:
                            UVMResourcePool.get().dump(o["audit"])
                    finally:
                        rep.server.set_logger(lambda s: None)
                secs = parse(cap.text)
                if o["k"] == "print":
                    want = [d for d in comps if d is c or (o["rec"] and d.get_full_name().startswith(path + "."))]
                    eq(sorted((s[0], s[1]) for s in secs), sorted((d.get_full_name(), "CFGPRT") for d in want), what + ": components listed")
                    for s in secs:
                        d = [x for x in want if x.get_full_name() == s[0]][0]
                        rows = [row(e, o["audit"]) for e in visible(d)]
                        listing(rows, s[2], what + ": settings visible at " + s[0])
                        eq(s[3], int(not rows), what + ": <none> shown at " + s[0])
                elif o["k"] == "usage":
                    rows = [row(e, True) for e in table.values() if any(a[2] for a in e["acc"].values()) and not any(a[0] for a in e["acc"].values())]
                    eq([s[1] for s in secs], ["CFGNRD"] if rows else [], what + ": sections")
                    if rows:
                        listing(rows, secs[0][2], what + ": unused settings")
                else:
                    eq([s[1] for s in secs], ["UVM/RESOURCE/DUMP"] * 2, what + ": sections")
                    listing([row(e, o["audit"]) for e in table.values()], secs[0][2], "op %d: dump" % n)
                    eq(secs[1][2], [], "op %d: after the dump" % n)
        phase.drop_objection(self)
    make(case["tree"], True)
    uvm_run(case["tree"]["cls"])
    rep.none_bad()
    return {"nontrivial": st["big"] > 0 and (st["two"] > 0 or st["off"] > 0), "listings": st["lists"], "lines": st["lines"], "components": len(comps)}
