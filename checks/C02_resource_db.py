from util import *

ID = "C02"
META = {
    "title": "Resource database lookups respect scope, precedence and queue order",
    "statement": "For every history of resource creations, priority and precedence changes, writes and read-only marks, a lookup by name returns the visible resource of highest precedence (first in search order among equals) and its latest written value, or fails leaving its output untouched when none is visible. Lookups of all visible resources return exactly those whose scope pattern matches, in search order, a write to a read-only resource is reported and has no effect, and wait_modified() returns as soon as the value was changed since it last returned.",
    "over": ["histories", "inputs"],
    "quant": "all histories of set, set_default, set_override, set_priority, precedence changes, set_read_only, writes and lookups over overlapping glob scopes",
    "why": "Unit tests read back single resources; the outcome depends on the whole history and on overlapping scopes.",
    "files": ["src/uvm/base/uvm_resource.py", "src/uvm/base/uvm_resource_db.py"],
    "mech": [["UVMResourcePool.set / lookup_name / sort_by_precedence / set_priority", "src/uvm/base/uvm_resource.py"], ["UVMResourceDb", "src/uvm/base/uvm_resource_db.py"]],
    "note": "Random histories against a reference resource pool.",
}
RULE = "at least one lookup had two or more visible resources of the requested name"
N = (400, 30000)
ASSUMPTIONS = ["scope patterns start at the hierarchy root or with '*'", "lookup by type is not ported"]
SEG = ["top", "a", "ab", "b", "u[0]"]
NAMES = ["r", "rr", "q"]


def scope(g):
    return ".".join(["top"] + g.some(0, g.i(0, 3), lambda: g.pick(SEG[1:])))


def pattern(g):
    p = scope(g)
    k = g.i(0, 5)
    if k in (0, 5):
        return "*"
    if k == 1:
        return p + g.pick(["*", ".*"])
    if k == 2:
        j = g.i(1, len(p))
        return p[:j] + "*" + p[g.i(j, len(p)):]
    if k == 3:
        j = g.i(1, len(p) - 1)
        return p[:j] + "?" + p[j + 1:]
    return p


def step(g):
    k = g.i(0, 11)
    n = g.pick(NAMES[:2]) if g.b(3, 4) else "q"
    v = g.i(0, 9)
    if k == 0:
        return ["dbset", pattern(g), n, v]
    if k == 1:
        return ["obj", pattern(g), n, v, g.pick(["set", "override"]), g.pick([1000, 1000, 999, 1001, 5])]
    if k == 2:
        return ["dbdefault", pattern(g), n]
    if k == 3:
        return ["pri", g.i(0, 12), g.b()]
    if k == 4:
        return ["prec", g.i(0, 12), g.pick([1000, 999, 1001, 2])]
    if k == 5:
        return ["ro", g.i(0, 12), g.b(2, 3)]
    if k == 6:
        return ["dbwrite", scope(g), n, v]
    if k == 7:
        return ["objwrite", g.i(0, 12), v]
    if k == 8:
        return ["scope", scope(g)]
    return ["dbread", scope(g), n]


def strategy():
    return gen(lambda g: {"steps": g.some(2, 6, lambda: ["obj" if False else "dbset", pattern(g), "r", g.i(0, 9)])
                          + g.some(4, 16, lambda: step(g)),
                          "writes": g.some(0, 5, lambda: [g.i(0, 3), g.i(0, 2)]), "waits": g.some(0, 3, lambda: g.i(0, 4))}, 430)


def same(got, want):
    """equal values of the same type; the very same object where it could change later"""
    return type(got) is type(want) and got == want and (not isinstance(want, list) or got is want)


def value(v):
    return [v % 2] if v in (3, 5, 7) else v == 6 if v in (4, 6) else v


def run(case):
    from uvm import UVMResourceDb
    from uvm.base.uvm_resource import UVMResource, UVMResourcePool, PRI_HIGH, PRI_LOW
    rep = Reports()
    tab = {}            # name -> search order of entries
    objs = []           # [real, entry]
    pool = UVMResourcePool.get()
    contested = reads = 0

    def entry(pat, name, val, prec=1000):
        return {"pat": pat, "name": name, "val": val, "prec": prec, "ro": False}

    def vals(got, want, what):
        check(len(got) == len(want) and all(map(same, got, want)), "%s: got %r, expected %r%s", what, got, want, " (other objects)" if got == want else "")

    def visible(scope_, name):
        return [e for e in tab.get(name, []) if glob_match(e["pat"], scope_)]

    def best(scope_, name):
        c = visible(scope_, name)
        return max(c, key=lambda e: e["prec"]) if c else None     # max() keeps the first of equals

    for s in case["steps"]:
        op = s[0]
        if op == "dbset":
            v = value(s[3])
            UVMResourceDb.set(s[1], s[2], v)
            tab.setdefault(s[2], []).append(entry(s[1], s[2], v))
        elif op == "dbdefault":
            r = UVMResourceDb.set_default(s[1], s[2])
            e = entry(s[1], s[2], None)
            tab.setdefault(s[2], []).append(e)
            objs.append([r, e])
        elif op == "obj":
            r = UVMResource(s[2], s[1])
            v = value(s[3])
            r.write(v)
            r.precedence = s[5]
            e = entry(s[1], s[2], v, s[5])
            if s[4] == "set":
                r.set()
                tab.setdefault(s[2], []).append(e)
            else:
                r.set_override()
                tab.setdefault(s[2], []).insert(0, e)
            objs.append([r, e])
        elif op in ("pri", "prec", "ro", "objwrite"):
            if not objs:
                continue
            r, e = objs[s[1] % len(objs)]
            if op == "pri":
                pool.set_priority_name(r, PRI_HIGH if s[2] else PRI_LOW)
                q = tab[e["name"]]
                i = [x is e for x in q].index(True)
                q.pop(i)
                q.insert(0, e) if s[2] else q.append(e)
            elif op == "prec":
                r.precedence = e["prec"] = s[2]
            elif op == "ro":
                r.set_read_only() if s[2] else r.set_read_write()
                e["ro"] = s[2]
                eq(bool(r.is_read_only()), s[2], "is_read_only()")
            else:
                n = len(rep.errors())
                v = value(s[2])
                r.write(v)
                if e["ro"]:
                    eq(len(rep.errors()), n + 1, "errors reported for a write to a read-only resource")
                else:
                    e["val"] = v
                    eq(len(rep.errors()), n, "errors reported for a legal write")
                vals([r.read()], [e["val"]], "value of the resource after a write")
        elif op == "dbwrite":
            e = best(s[1], s[2])
            n = len(rep.errors())
            v = value(s[3])
            ok = UVMResourceDb.write_by_name(s[1], s[2], v)
            eq(bool(ok), e is not None, "write_by_name(%r, %r) success" % (s[1], s[2]))
            if e is not None:
                if e["ro"]:
                    eq(len(rep.errors()), n + 1, "errors reported for a write to a read-only resource")
                else:
                    e["val"] = v
        elif op == "dbread":
            e = best(s[1], s[2])
            vis = visible(s[1], s[2])
            reads += 1
            contested += len(vis) > 1
            out = []
            ok = UVMResourceDb.read_by_name(s[1], s[2], out)
            eq(bool(ok), e is not None, "read_by_name(%r, %r) success" % (s[1], s[2]))
            vals(out, [e["val"]] if e is not None else [], "read_by_name(%r, %r)" % (s[1], s[2]))
            q = pool.lookup_name(s[1], s[2], None, False)
            vals([r.read() for r in q], [x["val"] for x in vis], "resources visible at %r under %r, in search order" % (s[1], s[2]))
            srt = UVMResourcePool.sort_by_precedence(q)
            vals([r.read() for r in srt], [x["val"] for x in sorted(vis, key=lambda x: -x["prec"])],
               "resources sorted by precedence")
            r = UVMResourceDb.get_by_name(s[1], s[2], False)
            eq(r is None, e is None, "get_by_name finds nothing")
            if r is not None:
                eq(r.get_name(), s[2], "name")
                vals([r.read()], [e["val"]], "get_by_name(%r, %r)" % (s[1], s[2]))
        elif op == "scope":
            q = pool.lookup_scope(s[1])
            q = [q.get(i) for i in range(len(q))]
            for n in NAMES:
                vals([r.read() for r in q if r.get_name() == n], [e["val"] for e in visible(s[1], n)], "resources %s among all visible at %r" % (n, s[1]))
    for r, e in objs:
        vals([r.read()], [e["val"]], "value of resource %r at the end" % e["name"])
    # waiting for modifications
    if case["waits"]:
        import cocotb
        import simkernel
        from cocotb.triggers import Timer
        r = UVMResource("w", "*")
        got, log = [], []

        async def waiter():
            for d in case["waits"]:
                await Timer(1 + 20 * d, "ps")
                await r.wait_modified()
                got.append(simkernel.now())

        async def main():
            cocotb.start_soon(waiter())
            for d, v in case["writes"]:
                await Timer(10 + 20 * d, "ps")
                if log[-1:] != [] and log[-1][1] == v:
                    v += 3
                log.append((simkernel.now(), v))
                r.write(v)
            await Timer(1000, "ps")
        sim(main())
        t, k, want = 0, 0, []
        for d in case["waits"]:
            t += 1 + 20 * d
            if k < len(log):
                # all writes before the wait count once
                t = max(t, log[k][0])
                want.append(t)
                while k < len(log) and log[k][0] <= t:
                    k += 1
            else:
                break
        eq(got, want, "times wait_modified() returned, with writes at %r" % (log,))
    return {"nontrivial": contested > 0, "reads": reads, "contested": contested}
