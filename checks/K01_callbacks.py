from util import *

ID = "K01"
META = {
    "title": "Callbacks run in registration order, only while enabled and of the asked type",
    "statement": "For every history of adding callbacks to an object or to all objects, appending or prepending, and enabling or disabling them, invoking or iterating the callbacks of an object visits exactly its enabled callbacks of the requested type, each once, in queue order. Iterating backwards visits the same ones in reverse, the exit-on form stops at the first callback returning the given value and returns it, and adding a callback twice is reported and changes nothing. A callback that is disabled while the callbacks run is not called any more.",
    "over": ["histories", "inputs"],
    "quant": "all histories of instance and type-wide additions with either ordering, mode changes (also from inside a callback) and invocations, over several objects and related callback types",
    "why": "The unit tests add one callback to one object; queues merge type-wide and instance callbacks depending on the order of additions.",
    "files": ["src/uvm/base/uvm_callback.py", "src/uvm/macros/uvm_callback_defines.py"],
    "mech": [["UVMCallbacks.add / m_add_tw_cbs / get_first..get_prev", "src/uvm/base/uvm_callback.py"], ["uvm_do_callbacks and its variants", "src/uvm/macros/uvm_callback_defines.py"]],
    "note": "Random histories against a queue model of every object.",
}
RULE = "some object with both type-wide and own callbacks, or a disabled callback, was iterated"
N = (400, 30000)
ASSUMPTIONS = ["no callbacks are added while they are being iterated", "deleting callbacks and adding by name are not ported", "type-wide callbacks apply to the objects of every class"]
NOBJ, NCB = 3, 6
TYPES = ["A", "B", "C"]            # B extends A


def op(g):
    k = g.i(0, 9)
    if k <= 1:
        return ["add", g.i(0, NOBJ - 1), g.i(0, NCB - 1), int(g.b())]
    if k == 2:
        return ["addtw", g.i(0, NCB - 1), int(g.b())]
    if k == 3:
        return ["mode", g.i(0, NCB - 1), int(g.b())]
    if k == 4:
        return ["walk", g.i(-1, NOBJ - 1), g.pick([None] + TYPES), int(g.b())]
    if k == 5:
        return ["seek", g.i(0, NOBJ - 1), g.pick([None] + TYPES), g.some(1, 8, lambda: g.pick(["first", "next", "last", "prev"]))]
    if k == 6:
        return ["exit", g.i(0, NOBJ - 1), g.pick(TYPES), g.i(0, 1), g.some(NCB, NCB, lambda: g.i(0, 1)), int(g.b())]
    return ["do", g.i(0, NOBJ - 1), g.pick(TYPES), g.pick(["do", "obj", "async", "objasync"]),
            g.some(0, 2, lambda: [g.i(0, NCB - 1), g.i(0, NCB - 1), int(g.b())])]


def strategy():
    return gen(lambda g: {"types": [g.pick(TYPES) for _ in range(NCB)], "comp": [g.b() for _ in range(NOBJ)],
                          "ops": g.some(4, 24, lambda: op(g))}, 300)


def run(case):
    from uvm import UVMCallback, UVMCallbacks, UVMComponent, UVMObject, uvm_register_cb
    from uvm.base.uvm_callback import UVMCallbackIter
    from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
    from uvm.macros.uvm_callback_defines import (uvm_do_callbacks, uvm_do_callbacks_async, uvm_do_callbacks_exit_on,
                                                 uvm_do_obj_callbacks, uvm_do_obj_callbacks_async,
                                                 uvm_do_obj_callbacks_exit_on)
    reps = Reports()
    log, modes, rets = [], {}, []

    class A(UVMCallback):
        def hit(self, *args):
            log.append((self.k, args))
            if self.k in modes:
                for j, on in modes[self.k]:
                    cbs[j].callback_mode(on)

        async def ahit(self, *args):
            self.hit(*args)

        def ret(self, *args):
            log.append((self.k, args))
            return rets[self.k]

    class B(A):
        pass

    class C(UVMCallback):
        hit, ahit, ret = A.hit, A.ahit, A.ret

    class Comp(UVMComponent):
        pass

    class Obj(UVMObject):
        pass
    for t in (Comp, Obj):
        for k in (A, B, C):
            uvm_register_cb(t, k)
    K = {"A": A, "B": B, "C": C, None: None}
    cbs = []
    for i, t in enumerate(case["types"]):
        cbs.append(K[t]("cb%d" % i))
        cbs[-1].k = i
    objs = [Comp("o%d" % i, None) if c else Obj("o%d" % i) for i, c in enumerate(case["comp"])]
    tw, inst, on = [], {}, [True] * NCB
    st = {"calls": 0, "mixed": 0}

    def queue(o):
        return list(inst[o]) if o in inst else list(tw)

    def ofs(o, t, enabled=True):
        q = queue(o) if o >= 0 else list(tw)
        return [c for c in q if (t is None or isinstance(cbs[c], K[t])) and (on[c] or not enabled)]

    def put(q, c, pre):
        if pre:
            q.insert(0, c)
        else:
            q.append(c)

    for o in case["ops"]:
        n = len(reps.of(1, "CBPREG"))
        dup = False
        if o[0] == "add":
            _, i, c, pre = o
            UVMCallbacks.add(objs[i], cbs[c], UVM_PREPEND if pre else UVM_APPEND)
            inst.setdefault(i, list(tw))
            dup = c in inst[i]
            if not dup:
                put(inst[i], c, pre)
        elif o[0] == "addtw":
            _, c, pre = o
            UVMCallbacks.add(None, cbs[c], UVM_PREPEND if pre else UVM_APPEND)
            dup = c in tw
            if not dup:
                put(tw, c, pre)
                for q in inst.values():
                    if c not in q:
                        put(q, c, pre)
        elif o[0] == "mode":
            eq(bool(cbs[o[1]].callback_mode(o[2])), on[o[1]], "previous mode returned by callback_mode")
            on[o[1]] = bool(o[2])
            eq(bool(cbs[o[1]].is_enabled()), on[o[1]], "is_enabled")
        elif o[0] == "walk":
            _, i, t, back = o
            it = UVMCallbackIter(objs[i] if i >= 0 else None, K[t])
            got, c = [], (it.last() if back else it.first())
            while c is not None:
                got.append(c.k)
                check(it.get_cb() is c, "get_cb() is not the callback returned last")
                check(len(got) <= 3 * NCB, "iteration does not end")
                c = it.prev() if back else it.next()
            want = ofs(i, t)
            eq(got, want[::-1] if back else want, "iteration over object %d, type %r, backwards=%d" % (i, t, back))
        elif o[0] == "seek":
            _, i, t, moves = o
            it, pos, want = UVMCallbackIter(objs[i], K[t]), None, ofs(i, t)
            for m in moves:
                if m in ("next", "prev") and pos is None:
                    m = "first"
                if m == "first":
                    pos = 0
                elif m == "last":
                    pos = len(want) - 1
                else:
                    pos += 1 if m == "next" else -1
                c = getattr(it, m)()
                if 0 <= pos < len(want):
                    check(c is not None and c.k == want[pos], "%s over object %d type %r: got %r, expected callback %d of %r", m, i, t, c and c.k, want[pos], want)
                else:
                    check(c is None, "%s beyond the end of %r returned %r", m, want, c)
                    pos = None
        elif o[0] == "exit":
            _, i, t, val, vals, obj = o
            rets[:] = vals
            del log[:]
            f = uvm_do_obj_callbacks_exit_on if obj else uvm_do_callbacks_exit_on
            r = f(objs[i], K[t], "ret", val, 7)
            want = []
            for c in ofs(i, t):
                want.append(c)
                if vals[c] == val:
                    break
            eq([k for k, a in log], want, "callbacks called by the exit-on form")
            eq(r, val if want and vals[want[-1]] == val else 1 - val, "value of the exit-on form")
        else:
            _, i, t, form, changes = o
            modes.clear()
            for who, whom, to in changes:
                modes.setdefault(who, []).append((whom, to))
            del log[:]
            args = (st["calls"], "x")
            if form == "do":
                uvm_do_callbacks(objs[i], K[t], "hit", *args)
            elif form == "obj":
                uvm_do_obj_callbacks(objs[i], K[t], "hit", *args)
            elif form == "async":
                sim(uvm_do_callbacks_async(objs[i], K[t], "ahit", *args))
            else:
                sim(uvm_do_obj_callbacks_async(objs[i], K[t], "ahit", *args))
            want = []
            for c in ofs(i, t, enabled=False):
                if on[c]:
                    want.append(c)
                    for whom, to in modes.get(c, ()):
                        on[whom] = bool(to)
            modes.clear()
            eq([k for k, a in log], want, "callbacks of type %s called for object %d" % (t, i))
            check(all(a == args for k, a in log), "callback arguments %r differ from %r", log, args)
            st["calls"] += 1
        eq(len(reps.of(1, "CBPREG")) - n, int(dup), "reports about an already registered callback after %r" % (o,))
        if o[0] in ("walk", "do", "exit", "seek"):
            i = o[1]
            if i >= 0 and (i in inst and set(inst[i]) & set(tw) and set(inst[i]) - set(tw) or not all(on[c] for c in queue(i))):
                st["mixed"] += 1
    return {"nontrivial": st["mixed"] > 0, "calls": st["calls"], "mixed": st["mixed"]}
