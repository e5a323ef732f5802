import os
import shutil
import tempfile

from util import *
from reclog import Log, tm

ID = "X02"
META = {
    "title": "Databases, streams, recorders and links hold exactly what is put into them",
    "statement": "For every timed history of direct calls on transaction databases, streams, recorders and links: each text database's file holds, in order, one record for each stream opened, recorder opened, attribute, object, close, free and parent-child or related link made through it, and nothing else, with the names, times (the current time where 0 is given), values in the given or the recorder's default radix and sizes; objects are recorded with their identifier if the recorder's identifier setting is on and with their contents unless its policy is UVM_REFERENCE. Closing is done once, freeing a recorder that is open closes it first, and a recorder that was freed takes nothing more, has no handle, no stream and is not found by its former handle; until then the handle finds it and open and close times and states are right. Links keep the two sides they are given; a link with a missing side, between other objects, or into another database is warned about and recorded nowhere. A database opens when it is first used, opening an open one and closing a closed one succeed, and its file name changes only while it is closed and not to an empty one, with a warning otherwise.",
    "over": ["inputs", "histories"],
    "quant": "all histories over two databases with any number of streams, recorders, nested objects, links, closings and reopenings",
    "why": "No unit test records anything; what a database holds is a property of the whole history of calls.",
    "files": ["src/uvm/base/uvm_recorder.py", "src/uvm/base/uvm_tr_stream.py", "src/uvm/base/uvm_tr_database.py", "src/uvm/base/uvm_links.py"],
    "mech": [["UVMRecorder.record_* / close / free / get_recorder_from_handle", "src/uvm/base/uvm_recorder.py"], ["UVMTrStream.open_recorder", "src/uvm/base/uvm_tr_stream.py"],
             ["UVMTrDatabase.open_stream / establish_link", "src/uvm/base/uvm_tr_database.py"], ["UVMParentChildLink / UVMRelatedLink", "src/uvm/base/uvm_links.py"]],
    "note": "The files of both databases are compared with the records a model expects, with handles matched one to one.",
}
RULE = "at least two recorders were opened, one of them was freed, and a link or an object was recorded"
N = (300, 30000)
ASSUMPTIONS = ["closing or freeing streams is not ported and not exercised", "the text database does not record cause-effect links", "recorded object graphs have no cycles", "links are made while the database is open",
               "the database files are written in a scratch directory"]
RAD = {"bin": ("b", "b"), "oct": ("o", "o"), "dec": ("d", "d"), "hex": ("X", "h"), "uns": ("d", "u")}
NAMES = ["r", "a b", "", "x.y", "tr", "100%"]


def strategy():
    def tree(g, d):
        return [g.bits(g.pick([1, 16, 32])), g.pick(NAMES), tree(g, d - 1) if d and g.b(2, 3) else None]

    def fn(g):
        ops = []
        for _ in range(g.i(4, 40)):
            k = g.pick(["stream", "open", "open", "open", "field", "int", "str", "obj", "obj", "close", "free", "free", "link", "link", "badlink", "set", "set", "name", "dbopen", "dbclose"])
            o = [g.pick([0, 0, 0, 1, 5]), k, g.i(0, 9), g.i(0, 9)]
            if k in ("stream", "open"):
                o += [g.pick(NAMES[:2] + NAMES[3:]), g.pick(NAMES), g.pick(["", "T", "Begin_End"]), g.pick([0, 0, 3, 40])]
            elif k in ("field", "int"):
                n = g.i(1, 64 if k == "int" else 150)
                o += [g.pick(NAMES[:2] + NAMES[3:]), g.bits(n) if g.b(5, 6) else g.bits(n + 9), n, g.pick([None] + sorted(RAD))]
            elif k == "str":
                o += [g.pick(NAMES[:2] + NAMES[3:]), g.pick(NAMES)]
            elif k == "obj":
                o += [g.pick(["o", "p"]), tree(g, 2) if g.b(5, 6) else None]
            elif k in ("close", "free"):
                o += [g.pick([0, 0, 9, 60])]
            elif k in ("link", "badlink"):
                o += [g.i(0, 2), g.i(0, 5), g.i(0, 3)]
            elif k == "set":
                o += [g.i(0, 2), g.pick(sorted(RAD)), g.b()]
            elif k == "name":
                o += [g.i(0, 3)]
            ops.append(o)
        if g.b(5, 6):
            ops[:0] = [[0, "stream", g.i(0, 1), 0, "s", g.pick(NAMES), "T", 0]] + [[g.i(0, 1), "open", 0, 0, "r%d" % i, "", g.pick(["", "T"]), g.pick([0, 3])] for i in range(g.i(1, 3))]
        return {"ops": ops}
    return gen(fn, 500)


def run(case):
    tmp = tempfile.mkdtemp(prefix="vx02_")
    try:
        return run_ops(case, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_ops(case, tmp):
    from uvm import UVMObject, UVMCoreService, uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int, uvm_field_string, uvm_field_object
    from uvm.base.uvm_tr_database import UVMTextTrDatabase
    from uvm.base.uvm_recorder import UVMRecorder
    from uvm.base.uvm_links import UVMParentChildLink, UVMRelatedLink, UVMCauseEffectLink
    from uvm.base.uvm_object_globals import UVM_BIN, UVM_OCT, UVM_DEC, UVM_HEX, UVM_UNSIGNED, UVM_REFERENCE, UVM_DEFAULT_POLICY
    from cocotb.triggers import Timer
    rep = Reports()
    radix = {"bin": UVM_BIN, "oct": UVM_OCT, "dec": UVM_DEC, "hex": UVM_HEX, "uns": UVM_UNSIGNED}
    st = {"opened": 0, "freed": 0, "links": 0, "objects": 0, "reopened": 0}
    KINDS = [UVMParentChildLink, UVMRelatedLink, UVMCauseEffectLink]

    class Obj(UVMObject):
        def __init__(self, name="obj"):
            super().__init__(name)
            self.q, self.w, self.deep = 0, "", None
    uvm_object_utils_begin(Obj)
    uvm_field_int("q")
    uvm_field_string("w")
    uvm_field_object("deep")
    uvm_object_utils_end(Obj)

    def build(t):
        if t is None:
            return None
        o = Obj("o")
        o.q, o.w, o.deep = t[0], t[1], build(t[2])
        return o
    files = {}             # path -> Log

    class Db:
        def __init__(self, i):
            self.db = UVMTextTrDatabase("db%d" % i)
            self.path = os.path.join(tmp, "f%d" % i)
            self.db.set_file_name(self.path)
            self.is_open = self.used = False

        def add(self, *parts):
            self.is_open = self.used = True
            files.setdefault(self.path, Log()).add(*parts)
    D = [Db(0), Db(1)]
    S, R = [], []          # streams: [Db, object, ref]   recorders: dict
    n = [0]

    def warned(what, ids):
        got = [m[1] for m in rep.msgs if m[0] >= 1]
        eq(got, ids, what + ": warnings and errors")
        rep.msgs.clear()

    def attr(r, name, val, rad, bits):
        r["db"].add("SET_ATTR @%s {TXH:" % tm(now[0]), r["ref"], " NAME:%s VALUE:%s   RADIX:%s BITS=%d}" % (name, val, rad, bits))

    def field(r, name, v, bits, rad):
        f, shown = RAD[rad or r["radix"]]
        attr(r, name, format(v & ((1 << bits) - 1), f), shown, bits)

    def rec_obj(r, name, o):
        if r["ident"]:
            attr(r, name, o.get_inst_id() if o is not None else 0, "d", 32)
        if o is not None and not r["shallow"]:
            st["objects"] += 1
            field(r, name + ".q", o.q, 32, None)
            attr(r, name + ".w", o.w, "UVM_STRING", 8 + len(o.w))
            rec_obj(r, name + ".deep", o.deep)

    def close(r, t):
        if r["state"] != "open":
            return
        t = t or now[0]
        r["db"].add("CLOSE_RECORDER @%s {TXH:" % tm(now[0]), r["ref"], " TIME=%s}" % tm(t))
        r["state"], r["end"] = "closed", t
    now = [0]

    async def go():
        for j, (dt, k, a, b, *x) in enumerate(case["ops"]):
            if dt:
                await Timer(dt, "NS")
                now[0] += dt
            what = "op %d %s" % (j, k)
            r = R[a % len(R)] if R else None
            d = D[a % 2]
            want = []
            if k == "stream":
                n[0] += 1
                ref = ("stream", n[0])
                d.add("CREATE_STREAM @%s [NAME:%s T:%s SCOPE:%s STREAM:" % (tm(now[0]), x[0], x[2], x[1]), ref, "]")
                s = d.db.open_stream(x[0], x[1], x[2])
                check(s is not None and s.is_open() and not s.is_closed() and s.get_db() is d.db, "%s: stream %r", what, s)
                eq(s.get_name(), x[0], what + ": name of the stream")
                S.append([d, s, ref])
            elif k == "open" and S:
                d, s, sref = S[a % len(S)]
                n[0] += 1
                st["opened"] += 1
                t = x[3] or now[0]
                r = {"db": d, "ref": ("rec", n[0]), "state": "open", "beg": t, "end": 0, "radix": "hex", "ident": True, "shallow": False, "stream": s}
                d.add("OPEN_RECORDER @%s {TXH:" % tm(now[0]), r["ref"], " STREAM:", sref, ' NAME:%s TIME:%s TYPE="%s"}' % (x[0], tm(t), x[2]))
                r["o"] = s.open_recorder(x[0], x[3], x[2])
                check(r["o"] is not None, "%s: no recorder", what)
                eq(r["o"].get_name(), x[0], what + ": name of the recorder")
                r["h"] = r["o"].get_handle()
                R.append(r)
            elif k in ("field", "int") and r:
                name, v, bits, rad = x
                if (rad or r["radix"]) == "dec":
                    v &= (1 << (bits - 1)) - 1           # signed: no sign bit
                if r["state"] != "freed":
                    field(r, name, v, bits, rad)
                f = r["o"].record_field if k == "field" else r["o"].record_field_int
                f(name, v, bits, radix[rad]) if rad else f(name, v, bits)
            elif k == "str" and r:
                if r["state"] != "freed":
                    attr(r, x[0], x[1], "UVM_STRING", 8 + len(x[1]))
                r["o"].record_string(x[0], x[1])
            elif k == "obj" and r:
                o = build(x[1])
                if r["state"] != "freed":
                    rec_obj(r, x[0], o)
                r["o"].record_object(x[0], o)
            elif k == "close" and r:
                close(r, x[0])
                r["o"].close(x[0])
            elif k == "free" and r:
                close(r, x[0])
                if r["state"] == "closed":
                    st["freed"] += 1
                    r["db"].add("FREE_RECORDER @%s {TXH:" % tm(now[0]), r["ref"], "}")
                    r["state"], r["warn"] = "freed", True
                r["o"].free(x[0])
            elif k == "set" and r:
                if x[0] == 0:
                    r["radix"] = x[1]
                    r["o"].default_radix = radix[x[1]]
                elif x[0] == 1:
                    r["ident"] = x[2]
                    r["o"].identifier = x[2]
                else:
                    r["shallow"] = x[2]
                    r["o"].policy = UVM_REFERENCE if x[2] else UVM_DEFAULT_POLICY
            elif k == "link":
                live = [q for q in R if q["state"] != "freed"]
                if len(live) < 2:
                    continue
                p, q = live[a % len(live)], live[b % len(live)]
                ln = KINDS[x[0]].get_link(p["o"], q["o"]) if x[1] % 2 else KINDS[x[0]]()
                if not x[1] % 2:
                    if x[1] % 4:
                        ln.set(p["o"], q["o"])
                    else:
                        ln.set_lhs(q["o"])
                        ln.set_rhs(q["o"])
                        ln.set_lhs(p["o"])
                check(ln.get_lhs() is p["o"] and ln.get_rhs() is q["o"], "%s: sides of the link", what)
                d = D[x[2] % 2]
                if p["db"] is d and q["db"] is d:
                    if not d.is_open:
                        continue        # nothing is linked in a closed database
                    if x[0] != 2:
                        st["links"] += 1
                        d.add("LINK @%s {TXH1:" % tm(now[0]), p["ref"], " TXH2:", q["ref"], " RELATION=%s}" % ["child", ""][x[0]])
                else:
                    want = ["UVM/TR_DB/BAD_LINK"]
                d.db.establish_link(ln)
            elif k == "badlink":
                live = [q for q in R if q["state"] != "freed"]
                if not live or not S:
                    continue
                p = live[a % len(live)]
                other = [None, Obj("z"), S[b % len(S)][1]][x[1] % 3]
                sides = (p["o"], other) if x[2] % 2 else (other, p["o"])
                ln = KINDS[x[0]].get_link(*sides)
                check(ln.get_lhs() is sides[0] and ln.get_rhs() is sides[1], "%s: sides of the link", what)
                d = p["db"]
                if x[1] % 3 < 2 or S[b % len(S)][0] is not d:
                    want = ["UVM/TR_DB/BAD_LINK"]
                d.db.establish_link(ln)
            elif k == "name":
                path = os.path.join(tmp, "g%d" % x[0]) if x[0] else ""
                if path and d.is_open or not path:
                    want = ["UVM/TXT_DB/SET_AFTER_OPEN" if path else "UVM/TXT_DB/EMPTY_NAME"]
                elif any(path == e.path for e in D):
                    continue            # one file per database
                else:
                    d.path = path
                d.db.set_file_name(path)
            elif k == "dbopen":
                check(d.db.open_db(), "%s: result", what)
                d.is_open = True
            elif k == "dbclose":
                st["reopened"] += d.used
                check(d.db.close_db(), "%s: result", what)
                d.is_open = False
            warnings = []
            if r and r["state"] == "freed" and r["warn"] and k in ("field", "int", "str", "obj"):
                r["warn"] = False
                want = ["UVM/REC/NO_CFG"]
            warned(what, want)
            for e in D:
                eq(bool(e.db.is_open()), e.is_open, "%s: %s is_open" % (what, e.db.get_name()))
            for i, q in enumerate(R):
                w = "%s: recorder %d (%s)" % (what, i, q["state"])
                o = q["o"]
                eq(bool(o.is_open()), q["state"] == "open", w + " is_open")
                eq(bool(o.is_closed()), q["state"] == "closed", w + " is_closed")
                gone = q["state"] == "freed"
                check(UVMRecorder.get_recorder_from_handle(q["h"]) is (None if gone else o), "%s is not what its handle gives", w)
                if not gone:
                    eq(o.get_handle(), q["h"], w + " handle")
                    eq(o.get_open_time(), q["beg"], w + " open time")
                    check(o.get_stream() is q["stream"], "%s: stream", w)
                    if q["state"] == "closed":
                        eq(o.get_close_time(), q["end"], w + " close time")
                else:
                    eq(o.get_handle(), 0, w + " handle")
        check(UVMRecorder.get_recorder_from_handle(0) is None, "a recorder for handle 0")
        cs = UVMCoreService.get()
        cs.set_default_tr_database(D[1].db)
        check(cs.get_default_tr_database() is D[1].db, "default database is not the one set")
        for e in D:
            check(e.db.close_db(), "final close_db")
    simkernel.run(go())
    for path, log in files.items():
        log.compare(open(path).read())
        for q in R:
            if q["ref"] in log.ids:
                eq(log.ids[q["ref"]], q["h"], "handle of %r in the database" % (q["ref"],))
    for f in os.listdir(tmp):
        if os.path.join(tmp, f) not in files:
            eq(open(os.path.join(tmp, f)).read(), "", "content of file %s, which no record went to" % f)
    return {"nontrivial": st["opened"] >= 2 and st["freed"] > 0 and st["links"] + st["objects"] > 0, **st}
