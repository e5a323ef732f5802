from util import *

ID = "D05"
META = {
    "title": "Pools and queues behave as maps and sequences",
    "statement": "For every history of operations, UVMPool, UVMObjectStringPool and UVMQueue hold exactly what a map or list receiving the same operations would hold: lookups, counts, membership, iteration in both directions, slices and searches agree with it. Out-of-range and unknown-key requests are reported and change nothing, a missing item of an object pool is created once and then shared, the global pools (plain, object, event, barrier) and the global queue exist once each, and a copy or clone has the same items but is independent of the original.",
    "over": ["histories", "inputs"],
    "quant": "all histories of insertions, deletions, traversals, copies and prints of pools (with and without a default type) and queues",
    "why": "Unit tests check single operations; traversal state, deletion and copies interact over a history.",
    "files": ["src/uvm/base/uvm_pool.py", "src/uvm/base/uvm_queue.py"],
    "mech": [["UVMPool, UVMObjectStringPool", "src/uvm/base/uvm_pool.py"], ["UVMQueue", "src/uvm/base/uvm_queue.py"]],
    "note": "Random histories against a dict and a list.",
}
RULE = "the history has five or more mutations and a traversal or a copy"
N = (400, 40000)
ASSUMPTIONS = ["a pool is not changed in the middle of a traversal"]
KEYS = ["a", "b", "c", "d e", ""]


def pop(g):
    k = g.i(0, 9)
    if k <= 2:
        return ["put", g.pick(KEYS), g.i(0, 9), int(g.b())]
    if k == 3:
        return ["get", g.pick(KEYS)]
    if k == 4:
        return ["del", g.pick(KEYS)]
    if k == 5:
        return ["clear"] if g.b(1, 3) else ["look", g.pick(KEYS)]
    if k == 6:
        return ["copy", int(g.b())]
    if k == 7:
        return ["print"]
    return ["walk", g.some(1, 9, lambda: g.pick(["first", "next", "next", "last", "prev"]))]


def qop(g):
    k = g.i(0, 11)
    if k <= 2:
        return ["push", g.i(0, 1), g.i(0, 9)]
    if k <= 4:
        return ["insert", g.i(-2, 6), g.i(0, 9)]
    if k == 5:
        return ["pop", g.i(0, 1)]
    if k == 6:
        return ["del", g.i(-3, 6)]
    if k == 7:
        return ["get", g.i(-2, 7)]
    if k == 8:
        return ["set", g.i(0, 7), g.i(0, 9)]
    if k == 9:
        return ["slice", g.i(0, 6), g.i(0, 7), g.i(1, 2)]
    if k == 10:
        return ["find", g.i(0, 9)]
    return ["copy", int(g.b())]


def strategy():
    def mk(g):
        kind = g.pick(["pool", "tpool", "objpool", "queue", "queue"])
        return {"kind": kind, "ops": g.some(5, 40, lambda: qop(g) if kind == "queue" else pop(g)),
                "glob": [[g.pick(["pool", "obj", "event", "barrier", "queue"]), g.pick(KEYS), g.b()] for _ in range(g.i(0, 8))]}
    return gen(mk, 300)


def run(case):
    st = {"mut": 0, "walk": 0}
    (queue if case["kind"] == "queue" else pool)(case, st)
    globs(case["glob"])
    return {"nontrivial": st["mut"] >= 5 and st["walk"] > 0, **st}


def globs(ops):
    """The global pools and the global queue: one of each kind, shared by all."""
    from uvm import UVMObject, UVMEvent
    from uvm.base.uvm_barrier import UVMBarrier
    from uvm.base.uvm_pool import UVMObjectStringPool, UVMPool, UVMEventPool, UVMBarrierPool
    from uvm.base.uvm_queue import UVMQueue
    C = {"pool": UVMPool, "obj": UVMObjectStringPool, "event": UVMEventPool, "barrier": UVMBarrierPool}
    T = {"obj": UVMObject, "event": UVMEvent, "barrier": UVMBarrier}
    m = {k: {} for k in C}
    items = []
    for n, (k, key, add) in enumerate(ops):
        what = "operation %d on the global %s" % (n, k)
        if k == "queue":
            q = UVMQueue.get_global_queue()
            if add or not items:
                items.append([n])
                q.push_back(items[-1])
            eq(list(q), items, what)
            for i, x in enumerate(items):
                check(UVMQueue.get_global(i) is x, "%s: item %d", what, i)
            continue
        c = C[k]
        if add:
            x = m[k][key] = T[k](key) if k in T else [n]
            c.get_global_pool().add(key, x)
        r = c.get_global(key)
        if key in m[k]:
            check(r is m[k][key], "%s: get_global gave %r", what, r)
        elif k == "pool":
            check(r is None, "%s: get_global of an unknown key gave %r", what, r)
        else:
            check(type(r) is T[k], "%s: get_global created a %s", what, type(r).__name__)
            eq(r.get_name(), key, what + ": name of the created item")
            m[k][key] = r
        for j in C:
            eq(C[j].get_global_pool().key_list(), list(m[j]), "%s: keys of the global %s" % (what, j))


def pool(case, st):
    from uvm import UVMObject
    from uvm.base.uvm_pool import UVMObjectStringPool, UVMPool
    reps = Reports()
    kind = case["kind"]

    class Item(UVMObject):
        pass
    p = UVMObjectStringPool("p", Item) if kind == "objpool" else UVMPool("p", list if kind == "tpool" else None)
    m, others = {}, []

    def same(x, d, what):
        eq(x.num(), len(d), "%s: num()" % what)
        eq(len(x), len(d), "%s: len()" % what)
        eq(list(x.keys()), list(d), "%s: keys()" % what)
        eq(x.key_list(), list(d), "%s: key_list()" % what)
        eq([k for k in x], list(d), "%s: iteration" % what)
        check(all(x[k] is d[k] for k in d), "%s: an item is not the one stored", what)
        eq(bool(x.has_first()), bool(d), "%s: has_first()" % what)
        eq(bool(x.has_last()), bool(d), "%s: has_last()" % what)
    for n, o in enumerate(case["ops"]):
        what = "%s after %r (operation %d)" % (kind, o, n)
        reps.msgs.clear()
        bad = 0
        if o[0] == "put":
            v = Item("i%d" % o[2]) if kind == "objpool" else ["v", o[2]]
            if o[3]:
                p[o[1]] = v
            else:
                p.add(o[1], v)
            m[o[1]] = v
            st["mut"] += 1
        elif o[0] == "get":
            r = p.get(o[1])
            if o[1] in m:
                check(r is m[o[1]], "%s: get returned %r instead of %r", what, r, m[o[1]])
            elif kind == "pool":
                check(r is None, "%s: get of an unknown key returned %r", what, r)
            else:
                check(isinstance(r, Item) and r.get_name() == o[1] if kind == "objpool" else r == [], "%s: created item is %r", what, r)
                m[o[1]] = r
        elif o[0] == "look":
            eq(bool(p.exists(o[1])), o[1] in m, what)
            eq(o[1] in p, o[1] in m, what)
            try:
                r = p[o[1]]
            except IndexError:
                r = None
            check(r is m.get(o[1]), "%s: [] gave %r", what, r)
        elif o[0] == "del":
            p.delete(o[1])
            bad = int(kind == "objpool" and o[1] not in m)
            m.pop(o[1], None)
            st["mut"] += 1
        elif o[0] == "clear":
            if kind == "objpool":
                continue
            p.delete()
            m = {}
        elif o[0] == "copy":
            if o[1]:
                c = p.clone()
            else:
                c = UVMObjectStringPool("q", Item) if kind == "objpool" else UVMPool("q")
                c.add("junk", Item("junk"))
                c.copy(p)
            others.append((c, dict(m)))
            st["walk"] += 1
        elif o[0] == "print":
            if kind == "objpool":
                m_shown = [k for k in m]
                text = p.sprint()
                check(all(k in text for k in m_shown), "%s: sprint() lacks a key of %r: %s", what, m_shown, text)
            else:
                text = p.sprint()
                check(all(str(v) in text for v in m.values()), "%s: sprint() lacks an item of %r: %s", what, m, text)
        else:
            pos, keys = None, list(m)
            for mv in o[1]:
                if pos is None and mv in ("next", "prev"):
                    mv = "first"
                if mv in ("first", "last"):
                    pos = (0 if mv == "first" else len(keys) - 1) if keys else None
                    r = getattr(p, mv)()
                    if keys:
                        check(r == keys[pos], "%s: %s() gave %r, expected %r", what, mv, r, keys[pos])
                    else:
                        check(not r, "%s: %s() of an empty pool gave %r", what, mv, r)
                        pos = None
                    continue
                q = pos + (1 if mv == "next" else -1)
                ok = 0 <= q < len(keys)
                eq(bool(getattr(p, "has_" + mv)()), ok, "%s: has_%s() at %d of %d" % (what, mv, pos, len(keys)))
                r = getattr(p, mv)()
                if ok:
                    check(r == keys[q], "%s: %s() gave %r, expected %r", what, mv, r, keys[q])
                    pos = q
                else:
                    check(r is None, "%s: %s() beyond the end gave %r", what, mv, r)
            st["walk"] += 1
        eq(len(reps.msgs), bad, "%s: reports %r" % (what, reps.msgs))
        same(p, m, what)
    for c, d in others:
        same(c, d, "copy at the end")


def queue(case, st):
    from uvm.base.uvm_queue import UVMQueue
    reps = Reports()
    q, m, others = UVMQueue("q"), [], []
    for n, o in enumerate(case["ops"]):
        what = "queue %r after %r (operation %d)" % (m, o, n)
        reps.msgs.clear()
        bad = 0
        if o[0] == "push":
            if o[1]:
                q.push_front([o[2]])
                m.insert(0, [o[2]])
            else:
                q.push_back([o[2]])
                m.append([o[2]])
            st["mut"] += 1
        elif o[0] == "insert":
            q.insert(o[1], [o[2]])
            if 0 <= o[1] < len(m):
                m.insert(o[1], [o[2]])
                st["mut"] += 1
            else:
                bad = 1
        elif o[0] == "pop":
            f = q.pop_front if o[1] else q.pop_back
            if m:
                eq(f(), m.pop(0 if o[1] else -1), what)
                st["mut"] += 1
            else:
                try:
                    r = f()
                except Exception:
                    r = None
                check(r is None, "%s: pop of an empty queue gave %r", what, r)
        elif o[0] == "del":
            if o[1] == -1:
                q.delete()
                m = []
            else:
                q.delete(o[1])
                if 0 <= o[1] < len(m):
                    del m[o[1]]
                    st["mut"] += 1
                else:
                    bad = 1
        elif o[0] == "get":
            r = q.get(o[1])
            if 0 <= o[1] < len(m):
                check(r is q[o[1]] and r == m[o[1]], "%s: got %r", what, r)
            else:
                bad = 1
                check(not r, "%s: out-of-range get gave %r", what, r)
        elif o[0] == "set":
            try:
                q[o[1]] = [o[2]]
                ok = True
            except Exception:
                ok = False
            eq(ok, o[1] < len(m), what)
            if ok:
                m[o[1]] = [o[2]]
                st["mut"] += 1
        elif o[0] == "slice":
            a, b = sorted((min(o[1], len(m)), min(o[2], len(m))))
            eq(list(q[a:b]), m[a:b], what)
            st["walk"] += 1
        elif o[0] == "find":
            def f(x):
                return x[0] >= o[1]
            r = q.find_with(f)
            eq([r.get(i) for i in range(r.size())], [x for x in m if f(x)], what + ": find_with")
            eq(q.find_first_index(f), next((i for i, x in enumerate(m) if f(x)), -1), what + ": find_first_index")
            st["walk"] += 1
        else:
            if o[1]:
                c = q.clone()
            else:
                c = UVMQueue("c")
                c.push_back("junk")
                c.copy(q)
            others.append((c, list(m)))
            st["walk"] += 1
        eq(len(reps.msgs), bad, "%s: reports %r" % (what, reps.msgs))
        eq(q.size(), len(m), what + ": size()")
        eq(len(q), len(m), what + ": len()")
        eq([q[i] for i in range(len(m))], m, what + ": items")
        eq(list(q), m, what + ": iteration")
        eq(q.front(), m[0] if m else None, what + ": front()")
        eq(q.back(), m[-1] if m else None, what + ": back()")
    for c, d in others:
        eq(list(c), d, "items of a copy at the end")
