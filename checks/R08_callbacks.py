from util import *
from regs import *

ID = "R08"
META = {
    "title": "Register, field and memory callbacks wrap every access and can alter it",
    "statement": "Every frontdoor write or read of a register or memory (also by update and mirror, through the built-in or a user-defined frontdoor, under any threads) calls, once each, the pre hook of every object concerned (the method of the register, its fields or the memory, then its enabled callbacks in their order) and after the access every post hook (enabled callbacks in order, then the method, for registers and fields). Values altered by pre_write are what is written and predicted, values altered by post_read are what the caller gets but not what is mirrored, an offset altered by pre_write or pre_read is the one accessed; a field's hooks see and alter just that field. A pre hook that sets a status other than UVM_IS_OK aborts the access: nothing reaches the bus, no post hook runs, no prediction happens, the caller gets that status and the next access works. A status set by a post hook is returned. post_predict is called once for every field predicted, with its old and new value. Hooks of concurrent accesses to one register never interleave.",
    "over": ["inputs", "histories", "schedules"],
    "quant": "all field layouts, callback lists, hook actions, access histories and thread interleavings",
    "why": "One unit test exercises a single register callback; hooks of fields and memories, altered values, aborts and their combinations are untested.",
    "files": ["src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_reg_cbs.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_field.py", "src/uvm/base/uvm_callback.py"],
    "mech": [["UVMReg.do_write / do_read", "src/uvm/reg/uvm_reg.py"], ["UVMMem.do_write / do_read", "src/uvm/reg/uvm_mem.py"], ["UVMRegField.do_predict", "src/uvm/reg/uvm_reg_field.py"],
             ["UVMRegCbs", "src/uvm/reg/uvm_reg_cbs.py"], ["UVMCallbackIter", "src/uvm/base/uvm_callback.py"]],
    "note": "Generated hooks record and alter; a model threads the value through the observed hook order and predicts bus, result, mirror and status.",
}
RULE = "an access was altered or aborted by a hook, with hooks of at least two objects or three callbacks involved"
N = (130, 12000)
ASSUMPTIONS = ["the order between the hooks of a register and those of its fields is not prescribed", "a field hook alters the value within the field's width",
               "post_read callbacks of UVMRegCbs are plain functions (as its interface has it)", "no sequence changes the path or map of an access"]
HOOKS = ["pre_write", "post_write", "pre_read", "post_read"]


def strategy():
    def fn(g):
        def hooks(mem):
            h = {}
            for k in HOOKS:
                if not g.b(2, 5):
                    continue
                acts = ["xor", "xor", "delay", "status"] if k == "pre_write" else ["status", "delay"] if k != "post_read" else ["xor", "xor", "status", "delay"]
                if mem and k.startswith("pre"):
                    acts.append("offset")
                a = g.pick(acts)
                if a == "delay" and k == "post_read":
                    a = "none"
                h[k] = [a, {"xor": g.bits(32), "offset": g.i(0, 15), "status": g.i(1, 2), "delay": g.i(0, 2), "none": 0}[a], g.i(0, 3)]
            return h

        def obj(mem=False):
            return {"m": hooks(mem) if g.b() else {}, "cbs": [{"h": hooks(mem), "on": g.b(5, 6), "pre": g.b(1, 4)} for _ in range(g.pick([0, 0, 1, 2, 3]))]}
        objs = []
        for _ in range(g.i(1, 3)):
            if g.b(1, 3):
                objs.append(dict(obj(True), mem=g.pick([4, 2, 8]), bits=g.pick([32, 16, 8]), fd=g.b(1, 4)))
            else:
                n = g.pick([32, 16, 8])
                fs = gen_fields(g, n, POLICIES, maxf=3)
                objs.append(dict(obj(), mem=0, bits=n, fields=fs, fo=[obj() for _ in fs], fd=g.b(1, 4)))
        threads = []
        for _ in range(g.pick([1, 1, 2, 3])):
            ops = []
            for _ in range(g.i(1, 6)):
                k = g.i(0, 9)
                ops.append([["write", "write", "write", "read", "read", "read", "mirror", "setup", "toggle", "predict"][k], g.i(0, 7), g.bits(32), g.i(0, 7), g.i(1, 4)])
            threads.append(ops)
        return {"objs": objs, "threads": threads, "rsp": g.b(1, 4), "delays": [g.pick([0, 0, 1]) for _ in range(3)], "auto": g.b(5, 6), "bad": g.i(0, 30),
                "free": len(threads) > 1 and g.b(1, 4)}
    return gen(fn, 300)


def run(case):
    import cocotb
    from cocotb.triggers import Timer
    from uvm import UVMComponent
    from uvm.base.uvm_callback import UVMCallbacks
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_cbs import UVMRegCbs
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_IS_OK, UVM_NOT_OK, UVM_HAS_X, UVM_READ, UVM_WRITE, UVM_BURST_READ, UVM_BURST_WRITE,
                                       UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_NO_CHECK, UVM_FRONTDOOR, UVM_FIELD, UVM_REG, UVM_MEM)
    from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
    STAT = [UVM_IS_OK, UVM_NOT_OK, UVM_HAS_X]
    rep = Reports()
    ev = []         # (kind, ...) in the order they happened
    recs, byaddr = [], {}
    st = {"nt": 0, "ops": 0, "aborts": 0, "altered": 0}
    nbus = [0]

    def elem_name(e):
        return e.get_parent().get_name() + "." + e.get_name() if isinstance(e, UVMRegField) else e.get_name()

    def enter(hook, obj, who, act, rw, n):
        """What a hook sees, and does."""
        e = {"hook": hook, "obj": obj, "who": who, "rw": rw, "val": list(rw.value), "off": rw.offset, "status": rw.status, "kind": rw.kind,
             "elem": elem_name(rw.element), "map": rw.map, "path": rw.path, "act": None}
        ev.append(e)
        if not act:
            return 0
        a, x, cond = act
        if cond == 3 and rw.value[0] & 1:       # sometimes depends on the value
            return 0
        e["act"] = act
        if a == "xor":
            if rw.kind in (UVM_BURST_READ, UVM_BURST_WRITE):
                for i in range(len(rw.value)):
                    rw.value[i] ^= x + i & (1 << n) - 1
            else:
                rw.value[0] ^= x & (1 << n) - 1
        elif a == "status":
            rw.status = STAT[x]
        elif a == "offset":
            rw.offset = x % max(1, case["objs"][recs_index(obj)]["mem"] - len(rw.value) + 1)
        return x if a == "delay" else 0

    def recs_index(name):
        return int(name.split(".")[0][1:])

    def hooked(base, name, spec, n):
        """A subclass of base whose hook methods record and act."""
        class X(base):
            pass

        def hook(k):
            async def f(self, rw):
                d = enter(k, name, "m", spec["m"].get(k), rw, n)
                await getattr(super(X, self), k)(rw)
                if d:
                    await Timer(d * 500, "ps")
            return f
        for k in HOOKS:
            setattr(X, k, hook(k))
        return X

    class Cb(UVMRegCbs):
        def __init__(self, name, obj, who, h, n):
            super().__init__(name)
            self.a = (obj, who, h, n)

        async def _do(self, k, rw):
            obj, who, h, n = self.a
            d = enter(k, obj, who, h.get(k), rw, n)
            if d:
                await Timer(d * 500, "ps")

        async def pre_write(self, rw):
            await self._do("pre_write", rw)

        async def post_write(self, rw):
            await self._do("post_write", rw)

        async def pre_read(self, rw):
            await self._do("pre_read", rw)

        def post_read(self, rw):
            obj, who, h, n = self.a
            enter("post_read", obj, who, h.get("post_read"), rw, n)

        def post_predict(self, fld, previous, value, kind, path, _map):
            ev.append({"hook": "post_predict", "obj": self.a[0], "who": self.a[1], "fld": elem_name(fld), "args": (previous, value, kind == UVM_PREDICT_WRITE)})

    def attach(x, spec, name, n):
        order = []
        for i, c in enumerate(spec["cbs"]):
            cb = Cb("cb_%s_%d" % (name, i), name, i, c["h"], n)
            UVMCallbacks.add(x, cb, UVM_PREPEND if c["pre"] else UVM_APPEND)
            order.insert(0 if c["pre"] else len(order), i)
            c["cb"] = cb
            cb.callback_mode(int(c["on"]))
        return {"order": order, "spec": spec, "on": [c["on"] for c in spec["cbs"]], "n": n, "name": name}

    def bus(kind, addr, data, be):
        nbus[0] += 1
        c = byaddr[addr]
        ok = nbus[0] != case["bad"]
        e = {"hook": "bus", "obj": c["name"], "kind": kind, "addr": addr, "data": data, "ok": ok, "out": 0}
        ev.append(e)
        if not ok:
            return 0, False
        if c["mem"]:
            o = (addr - c["off"]) // 4
            if kind == "write":
                c["words"][o] = data
            e["out"] = c["words"][o]
        elif kind == "write":
            c["dut"].write(data)
        else:
            e["out"] = c["dut"].read()
        return e["out"], True

    class Ftdr(UVMRegFrontdoor):
        async def body(self):
            rw = self.rw_info
            c = recs[recs_index(rw.element.get_name())]
            rw.status = UVM_IS_OK
            kind = "write" if rw.kind in (UVM_WRITE, UVM_BURST_WRITE) else "read"
            for i in range(len(rw.value)):
                await Timer(500, "ps")
                data, ok = bus(kind, c["off"] + 4 * ((rw.offset or 0) + i if c["mem"] else 0), rw.value[i], -1)
                if kind == "read":
                    rw.value[i] = data
                if not ok:
                    rw.status = UVM_NOT_OK

    def val(c):
        return sum(f.mir << f.lsb for f in c["fs"])

    def objs_of(c):
        return [c["o"]] + c["fo"]

    def follow(c, hooks, phase, value, off, status, what):
        """Thread value, offset and status through the hooks of one phase (pre or post)."""
        left = {o["name"]: o for o in objs_of(c)}
        k = 0
        masks = {o["name"]: (0, (1 << c["bits"]) - 1) for o in [c["o"]]}
        for o, f in zip(c["fo"], c["fields"]):
            masks[o["name"]] = (f["lsb"], (1 << f["n"]) - 1)
        while k < len(hooks):
            name = hooks[k]["obj"]
            check(name in left, "%s: hooks of %s called again or unexpectedly: %r", what, name, [(h["obj"], h["who"]) for h in hooks])
            o = left.pop(name)
            cbs = [i for i in o["order"] if o["live"][i]]
            n = 1 + len(cbs)
            got = [h["who"] for h in hooks[k:k + n]]
            want = ["m"] + cbs if phase.startswith("pre") else cbs + ["m"]
            if c["mem"] and phase.startswith("post"):
                check(got in (want, ["m"] + cbs), "%s: %s hooks of %s called as %r, expected %r", what, phase, name, got, want)
            else:
                eq(got, want, "%s: %s hooks of %s" % (what, phase, name))
            check(all(h["obj"] == name and h["hook"] == phase for h in hooks[k:k + n]), "%s: hooks of different objects are mixed", what)
            lsb, m = masks[name]
            for h in hooks[k:k + n]:
                cur = [v >> lsb & m for v in value]
                if phase != "pre_read":
                    eq(h["val"], cur, "%s: value seen by %s %s/%s" % (what, phase, name, h["who"]))
                if h["who"] != "m":
                    eq(h["elem"], name, "%s: element of %s" % (what, phase))
                if c["mem"]:
                    eq(h["off"], off, "%s: offset seen by %s %s/%s" % (what, phase, name, h["who"]))
                eq(h["status"], status, "%s: status seen by %s %s/%s" % (what, phase, name, h["who"]))
                check(h["map"] is box["map"] and h["path"] == UVM_FRONTDOOR, "%s: map or path", what)
                if h["act"]:
                    a, x, _ = h["act"]
                    if a == "xor":
                        value = [v ^ ((x + i if c["burst"] else x) & m) << lsb for i, v in enumerate(value)]
                        st["altered"] += 1
                    elif a == "status":
                        status = STAT[x]
                    elif a == "offset":
                        off = x % max(1, c["mem"] - len(value) + 1)
                        st["altered"] += 1
                c["involved"].add((name, h["who"]))
            k += n
        check(not left, "%s: no %s hooks of %s were called", what, phase, sorted(left))
        return value, off, status

    def judge(c, kind, value, off, status, result, e0, what, predicted=True):
        """Check the events of one access of c that starts at e0."""
        mine = [e for e in ev[e0:] if e["obj"].split(".")[0] == c["name"]]
        acts = [e for e in mine if e["hook"] != "post_predict"]
        rws = {id(e["rw"]) for e in acts if "rw" in e}
        check(len(rws) == 1, "%s: hooks of %d register items", what, len(rws))
        c["involved"] = set()
        cut = next((i for i, e in enumerate(acts) if not e["hook"].startswith("pre")), len(acts))
        pre, rest = acts[:cut], acts[cut:]
        alt0 = st["altered"]
        w, off, s = follow(c, pre, "pre_" + kind, list(value), off, UVM_IS_OK, what)
        if s != UVM_IS_OK:
            eq((status, [e["hook"] for e in rest], [e for e in mine if e["hook"] == "post_predict"]), ([s], [], []), what + ": status and events of an aborted access")
            st["aborts"] += 1
            st["nt"] += len({o for o, _ in c["involved"]}) > 1 or len(c["involved"]) > 2
            return
        cut = next((i for i, e in enumerate(rest) if e["hook"] != "bus"), len(rest))
        beats, post = rest[:cut], rest[cut:]
        if kind == "write":
            w = [v & (1 << c["bits"]) - 1 for v in w]
        ok = all(b["ok"] for b in beats)
        n = len(w) if ok or c["fd"] else 1 + [b["ok"] for b in beats].index(False)
        eq([(b["kind"], b["addr"]) for b in beats], [(kind, c["off"] + 4 * (off + i if c["mem"] else 0)) for i in range(n)], what + ": bus accesses")
        if kind == "write":
            eq([b["data"] for b in beats], w[:n], what + ": data on the bus")
        else:
            w = list(post[0]["val"]) if not ok and post[0]["obj"] == c["name"] else [b for b in c["reads"]]
        if not c["mem"] and not ok:
            box["lost"].add(c["name"])
        want = []
        if not c["mem"] and box["auto"] and ok:
            for f, o in zip(c["fs"], c["fo"]):
                v, old = w[0] >> f.lsb & f.mask, f.mir
                f.predict(kind, v)
                if not (kind == "read" and f.pol in WRITE_ONLY):
                    want += [(o["name"], i, (old, f.mir, kind == "write")) for i in o["order"] if o["live"][i]]
        elif not c["mem"] and box["auto"]:
            want = None
        if want is not None and c["name"] not in box["lost"]:
            eq([(e["fld"], e["who"], e["args"]) for e in mine if e["hook"] == "post_predict"], want, what + ": post_predict calls")
        w, off, s = follow(c, post, "post_" + kind, w, off, UVM_IS_OK if ok else UVM_NOT_OK, what)
        eq(status, [s], what + ": status returned")
        if kind == "read" and ok:
            eq(result, w, what + ": value returned")
        st["ops"] += 1
        if st["altered"] > alt0:
            st["nt"] += len({o for o, _ in c["involved"]}) > 1 or len(c["involved"]) > 2

    async def op(k, o, box_):
        c = recs[o[1] % len(recs)]
        what = "op %d %r on %s" % (k, o, c["name"])
        x = c["x"]
        mp = box["map"]
        if o[0] == "toggle":
            ob = objs_of(c)[o[3] % len(objs_of(c))]
            if ob["on"]:
                await c["lock"].acquire()
                i = o[2] % len(ob["on"])
                cb = ob["spec"]["cbs"][i]["cb"]
                ob["on"][i] = not ob["on"][i]
                old = cb.callback_mode(int(ob["on"][i]))
                eq(int(old), int(not ob["on"][i]), what + ": former mode")
                c["lock"].release()
            return
        await c["lock"].acquire()       # one at a time per object, unless it checks the serialisation
        try:
            for ob in objs_of(c):
                ob["live"] = list(ob["on"])
            e0 = len(ev)
            s, v = [], []
            c["burst"] = False
            if c["mem"]:
                size = c["mem"]
                n = min(o[4], size) if o[0] in ("setup", "mirror", "predict") else 1
                off = o[3] % (size - n + 1)
                m = (1 << c["bits"]) - 1
                kind = "write" if o[0] in ("write", "setup") else "read"
                c["burst"] = o[0] in ("setup", "mirror", "predict")
                data = [o[2] + 0x1111 * i & m for i in range(n)]
                if kind == "write":
                    if c["burst"]:
                        arg = list(data)
                        await x.burst_write(s, off, arg, _map=mp)
                        eq(arg, data, what + ": the caller's list")
                    else:
                        await x.write(s, off, data[0], _map=mp)
                else:
                    if c["burst"]:
                        v = [0] * n
                        await x.burst_read(s, off, v, _map=mp)
                    else:
                        await x.read(s, off, v, _map=mp)
                    # what the bus gave
                    c["reads"] = [e["out"] for e in read_beats(c, e0)]
                    data = [0] * n
                judge(c, kind, data, off, s, v, e0, what)
                return
            data = o[2] & (1 << c["bits"]) - 1
            if o[0] == "predict":
                wr = bool(o[3] & 1)
                olds = [f.mir for f in c["fs"]]
                check(x.predict(data, -1, UVM_PREDICT_WRITE if wr else UVM_PREDICT_READ, UVM_FRONTDOOR, mp), "%s failed", what)
                want = []
                for f, ob, old in zip(c["fs"], c["fo"], olds):
                    f.predict("write" if wr else "read", data >> f.lsb & f.mask)
                    if wr or f.pol not in WRITE_ONLY:
                        want += [(ob["name"], i, (old, f.mir, wr)) for i in ob["order"] if ob["live"][i]]
                if c["name"] not in box["lost"]:
                    eq([(e["fld"], e["who"], e["args"]) for e in ev[e0:] if e["hook"] == "post_predict" and e["obj"].split(".")[0] == c["name"]], want, what + ": post_predict calls")
            elif o[0] == "write":
                for f in c["fs"]:
                    f.set(data >> f.lsb & f.mask)
                await x.write(s, data, _map=mp)
                judge(c, "write", [data], 0, s, v, e0, what)
            elif o[0] == "setup":
                if any(f.pol not in ("RW", "WO", "RO", "WRC", "WRS") for f in c["fs"]) or c["name"] in box["lost"]:
                    return
                x.set(data)
                for f in c["fs"]:
                    f.set(data >> f.lsb & f.mask)
                des = sum(f.des << f.lsb for f in c["fs"])
                need = any(f.des != f.mir for f in c["fs"])
                await x.update(s, _map=mp)
                if need:
                    judge(c, "write", [des], 0, s, v, e0, what)
                else:
                    eq((s, [e for e in ev[e0:] if e["obj"].split(".")[0] == c["name"]]), ([UVM_IS_OK], []), what + ": an update that is not needed")
            else:
                if o[0] == "read":
                    await x.read(s, v, _map=mp)
                else:
                    await x.mirror(s, UVM_NO_CHECK, _map=mp)
                c["reads"] = [e["out"] for e in read_beats(c, e0)]
                judge(c, "read", [0], 0, s, v if o[0] == "read" else Any(), e0, what)
            if c["name"] not in box["lost"]:
                for f in c["fs"]:
                    y = x.fl[f.spec["name"]]
                    eq((y.get_mirrored_value(), y.get()), (f.mir, f.des), "%s: mirrored and desired value of %s (%s)" % (what, f.spec["name"], f.pol))
        finally:
            c["lock"].release()

    def read_beats(c, e0):
        return [e for e in ev[e0:] if e["hook"] == "bus" and e["obj"] == c["name"]]

    class Any(list):
        def __eq__(self, o):
            return True

    async def run_phase(self, phase):
        phase.raise_objection(self)

        async def thread(ops):
            for k, o in enumerate(ops):
                await op(k, o, box)

        async def free(ops):
            for o in ops:
                c = recs[o[1] % len(recs)]
                if not c["mem"]:
                    if o[0] in ("write", "setup"):
                        await c["x"].write([], o[2] & (1 << c["bits"]) - 1, _map=box["map"])
                    else:
                        await c["x"].read([], [], _map=box["map"])
        ts = [cocotb.start_soon((free if case["free"] else thread)(t)) for t in case["threads"]]
        for t in ts:
            await t
        for c in recs if case["free"] else []:
            order = [id(e["rw"]) for e in ev if "rw" in e and e["obj"].split(".")[0] == c["name"]]
            order = [x for i, x in enumerate(order) if not i or order[i - 1] != x]
            check(len(set(order)) == len(order), "hooks of concurrent accesses to %s interleave", c["name"])
            st["ops"] += len(order)
            st["nt"] += len(order) > 1 and len(case["threads"]) > 1
        phase.drop_objection(self)

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        from cocotb.triggers import Lock

        def dut(kind, addr, data, be):
            out = bus(kind, addr, data, be)
            return out
        self.sqr, self.ad, self.log, self.conn = bus_env(self, dut, case["rsp"], case["delays"])
        blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
        box["map"] = blk.create_map("map", 0, 4, UVM_LITTLE_ENDIAN)
        at = 0
        for i, s in enumerate(case["objs"]):
            name = "o%d" % i
            fd = Ftdr("fd%d" % i) if s["fd"] else None
            c = {"name": name, "mem": s["mem"], "bits": s["bits"], "off": at, "fo": [], "fs": [], "fields": [], "fd": s["fd"], "burst": False, "lock": Lock()}
            if s["mem"]:
                x = hooked(UVMMem, name, s, s["bits"])(name, s["mem"], s["bits"])
                x.configure(blk)
                box["map"].add_mem(x, at, "RW", 0, fd)
                c["words"] = [0] * s["mem"]
                for k in range(s["mem"]):
                    byaddr[at + 4 * k] = c
                at += 4 * s["mem"]
            else:
                x = hooked(UVMReg, name, s, s["bits"])(name, s["bits"], UVM_NO_COVERAGE)
                x.fl = {}
                for f, fo in zip(s["fields"], s["fo"]):
                    fn = name + "." + f["name"]
                    y = hooked(UVMRegField, fn, fo, f["n"])(f["name"])
                    y.configure(x, f["n"], f["lsb"], f["pol"], 0, f["reset"] or 0, 1, 0, 0)
                    x.fl[f["name"]] = y
                    c["fo"].append(attach(y, fo, fn, f["n"]))
                    c["fs"].append(FieldState(f))
                    c["fs"][-1].reset()
                x.configure(blk)
                box["map"].add_reg(x, at, "RW", 0, fd)
                c["fields"] = s["fields"]
                c["dut"] = DutReg(s["fields"], s["bits"])
                byaddr[at] = c
                at += 4
            c["o"] = attach(x, s, name, s["bits"])
            c["x"] = x
            recs.append(c)
        blk.lock_model()
        blk.reset()

    def connect(self, phase):
        self.conn()
        box["map"].set_sequencer(self.sqr, self.ad)
        box["map"].set_auto_predict(case["auto"])
        box["map"].set_check_on_read(False)
    box = {"auto": case["auto"], "lost": set()}
    top = comp_class("R08Top", {"build_phase": build, "connect_phase": connect, "run_phase": run_phase})
    uvm_run(top)
    rep.none_bad()
    return {"nontrivial": st["nt"] > 0, "accesses": st["ops"], "aborted": st["aborts"], "alterations": st["altered"]}
