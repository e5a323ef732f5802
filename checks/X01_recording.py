import os
import re
import shutil
import tempfile

from util import *
from reclog import Log, tm

ID = "X01"
META = {
    "title": "Transactions keep their times and events and are recorded completely, once",
    "statement": "For every timed history of accept_tr/begin_tr/begin_child_tr/end_tr on transactions, directly or through components, the accept, begin and end times are the ones given (or the current time for 0), is_active and the transaction handle are right, and the begin/end/accept events of the transaction and begin_tr/end_tr/accept_tr events of the component are triggered, and the do_ hooks of both called, exactly once per call. With recording enabled (component recording_detail, or enable_recording with a stream) the text transaction database holds, in order, each stream once; for every begun transaction one open record on the right stream with its name, kind and begin time, its label and description, a child link from its parent and a link between the component's and the transaction's own record; when it ends every automated field not marked UVM_NORECORD and everything its do_record records, nested objects with dotted names, with the right values; then the close with the end time, and the free if asked for. Event and error records likewise. With recording off nothing is recorded. A handle maps to its recorder until it is freed and to nothing afterwards. The database can be closed and opened again without losing records, and its file name can be chosen before it is opened. Sequences started on a recording sequencer are recorded as one record each, linked to their parent sequence's record, over the time they ran.",
    "over": ["inputs", "histories"],
    "quant": "all transaction contents and histories of accepting, beginning, ending and recording on several components and streams, all nestings of sequences",
    "why": "No unit test records a transaction; completeness of a recording is a property of whole histories with overlapping transactions.",
    "files": ["src/uvm/base/uvm_transaction.py", "src/uvm/base/uvm_component.py", "src/uvm/base/uvm_recorder.py", "src/uvm/base/uvm_tr_stream.py", "src/uvm/base/uvm_tr_database.py", "src/uvm/base/uvm_links.py", "src/uvm/seq/uvm_sequence_base.py"],
    "mech": [["UVMTransaction.m_begin_tr / end_tr", "src/uvm/base/uvm_transaction.py"], ["UVMComponent.m_begin_tr / end_tr / record_event_tr", "src/uvm/base/uvm_component.py"],
             ["UVMTextRecorder", "src/uvm/base/uvm_recorder.py"], ["UVMTextTrDatabase", "src/uvm/base/uvm_tr_database.py"]],
    "note": "The text file of the database is compared with the records a model expects, with handles matched one to one.",
}
RULE = "at least two transactions were recorded, and a parent link, a nested object or a re-opened database was involved"
N = (150, 20000)
ASSUMPTIONS = ["integers recorded by automation fit into 32 bits", "a transaction is not begun again on a component before it ended there", "strings hold printable text",
               "closing or freeing streams is not ported and not exercised", "the database file is written in a scratch directory"]
WORDS = ["", "x", "lab el", "100%", "{a}", "%d", "L"]
RAD = {"bin": "b", "oct": "o", "dec": "d", "hex": "h", "uns": "u"}


def strategy():
    def fn(g):
        if g.b(1, 4):
            def node(d):
                return {"pre": g.i(0, 2), "post": g.i(0, 2), "items": g.i(0, 2), "name": g.i(0, 2),
                        "kids": [node(d + 1) for _ in range(g.i(0, 3 if d == 0 else 2))] if d < 3 else []}
            return {"mode": "seq", "roots": [node(0) for _ in range(g.i(1, 3))], "par": g.b(), "rec": g.b(5, 6)}
        trs = [{"name": g.pick(["t", "u", "", "v"]), "a": g.bits(32), "s": g.pick(WORDS), "c": g.bits(8), "nr": g.b(1, 4),
                "sub": [g.bits(16), g.pick(WORDS), g.b(1, 3)] if g.b(2, 3) else None,
                "extra": [[g.pick(["f", "i", "s", "o"]), g.bits(12), g.pick(sorted(RAD)), g.pick(WORDS), g.b()] for _ in range(g.pick([0, 0, 1, 3]))]}
               for _ in range(g.i(1, 5))]
        ops = []
        for _ in range(g.i(3, 30)):
            k = g.pick(["cbegin", "cbegin", "cend", "cend", "begin", "end", "accept", "caccept", "event", "enable", "disable", "reopen", "detail", "child"])
            ops.append([g.pick([0, 0, 1, 3]), k, g.i(0, 4), g.i(0, 1), g.pick(["main", "main", "", "s1", "s2"]), g.pick(WORDS), g.pick(WORDS),
                        g.pick([0, 0, 0, 7, 50]), g.pick([None, None, 0, 1, 2, 3]), g.b(4, 5)])
        return {"mode": "ops", "trs": trs, "ops": ops, "detail": [g.b(3, 4), g.b()], "shared": g.b()}
    return gen(fn, 500)


def run(case):
    tmp = tempfile.mkdtemp(prefix="vx01_")
    try:
        return (run_seq if case["mode"] == "seq" else run_ops)(case, os.path.join(tmp, "db.log"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_ops(case, path):
    from uvm import (UVMObject, UVMTransaction, UVMComponent, UVMTest, UVMCoreService, uvm_object_utils_begin, uvm_object_utils_end, uvm_object_utils,
                     uvm_field_int, uvm_field_string, uvm_field_object)
    from uvm.base.uvm_object_globals import UVM_ALL_ON, UVM_NORECORD, UVM_BIN, UVM_OCT, UVM_DEC, UVM_HEX, UVM_UNSIGNED, UVM_NONE, UVM_FULL
    from uvm.base.uvm_recorder import UVMRecorder
    from uvm.base.sv import sv
    from cocotb.triggers import Timer
    rep = Reports()
    radix = {"bin": UVM_BIN, "oct": UVM_OCT, "dec": UVM_DEC, "hex": UVM_HEX, "uns": UVM_UNSIGNED}
    digits = {"bin": "b", "oct": "o", "dec": "d", "hex": "X", "uns": "d"}
    st = {"opened": 0, "links": 0, "nested": 0, "reopened": 0}

    class Sub(UVMObject):
        def __init__(self, name="sub"):
            super().__init__(name)
            self.q, self.w, self.deep = 0, "", None
    uvm_object_utils_begin(Sub)
    uvm_field_int("q")
    uvm_field_string("w")
    uvm_field_object("deep")
    uvm_object_utils_end(Sub)

    def tr_class(nr):
        class Tr(UVMTransaction):
            def __init__(self, name=""):
                super().__init__(name)
                self.a, self.s, self.c, self.o = 0, "", 0, Sub()
                self.extra = []
                self.hooks = {"accept": 0, "begin": 0, "end": 0}

            def do_accept_tr(self):
                super().do_accept_tr()
                self.hooks["accept"] += 1

            def do_begin_tr(self):
                super().do_begin_tr()
                self.hooks["begin"] += 1

            def do_end_tr(self):
                super().do_end_tr()
                self.hooks["end"] += 1

            def do_record(self, recorder):
                for i, (k, v, r, s, deep) in enumerate(self.extra):
                    n = "x%d" % i
                    if k == "f":
                        recorder.record_field(n, v, 12, radix[r])
                    elif k == "i":
                        recorder.record_field_int(n, v, 12, radix[r])
                    elif k == "s":
                        recorder.record_string(n, s)
                    else:
                        recorder.record_object(n, self.o if deep else None)
        Tr.__name__ = "Tr%d" % nr
        uvm_object_utils_begin(Tr)
        uvm_field_int("a")
        uvm_field_object("o", UVM_ALL_ON | (UVM_NORECORD if nr == 2 else 0))
        uvm_field_int("c", UVM_ALL_ON | (UVM_NORECORD if nr else 0))
        uvm_field_string("s")
        uvm_object_utils_end(Tr)
        return Tr
    classes = [tr_class(0), tr_class(1), tr_class(2)]
    log = Log()
    now = [0]
    txn, M = [], []
    n_rec = [0]

    class Count:
        def __init__(self):
            self.n = 0
            self.data = None

        def pre_trigger(self, ev, data=None):
            return False

        def post_trigger(self, ev, data=None):
            self.n += 1
            self.data = data

    class Comp(UVMComponent):
        def do_accept_tr(self, tr):
            super().do_accept_tr(tr)
            hooked.append([self, "accept", tr])

        def do_begin_tr(self, tr, stream_name, tr_handle):
            super().do_begin_tr(tr, stream_name, tr_handle)
            if self.recording_detail != UVM_NONE:
                hooked.append([self, "begin", tr, stream_name, tr_handle])

        def do_end_tr(self, tr, tr_handle):
            super().do_end_tr(tr, tr_handle)
            if self.recording_detail != UVM_NONE:
                hooked.append([self, "end", tr, tr_handle])
    hooked = []

    def build():
        for t in case["trs"]:
            k = 2 if t["sub"] is None else int(t["nr"])
            x = classes[k](t["name"])
            x.a, x.s, x.c = t["a"], t["s"], t["c"]
            x.extra = t["extra"]
            if t["sub"]:
                x.o = Sub("o")
                x.o.q, x.o.w = t["sub"][:2]
                if t["sub"][2]:
                    x.o.deep = Sub("d")
                    x.o.deep.q = 5
                    x.o.deep.deep = None
            txn.append(x)
            cb = {}
            for e in ("accept", "begin", "end"):
                cb[e] = Count()
                x.get_event_pool().get(e).add_callback(cb[e])
            M.append({"acc": -1, "beg": -1, "end": -1, "stream": None, "own": None, "at": {}, "cb": cb, "want": {"accept": 0, "begin": 0, "end": 0}, "name": t["name"] or "Tr%d" % k,
                      "type": "Tr%d" % k, "k": k})

    def attr(rec, name, val, rad, bits):
        log.add("SET_ATTR @%s {TXH:" % tm(now[0]), rec, " NAME:%s VALUE:%s   RADIX:%s BITS=%d}" % (name, val, rad, bits))

    def s_attr(rec, name, s):
        attr(rec, name, s, "UVM_STRING", 8 + len(s))

    def record(rec, i):
        x, m = txn[i], M[i]
        attr(rec, "a", "%X" % x.a, "h", 32)
        if m["k"] != 2:
            rec_obj(rec, "o", x.o)
        if not m["k"]:
            attr(rec, "c", "%X" % x.c, "h", 32)
        s_attr(rec, "s", x.s)
        for j, (k, v, r, s, deep) in enumerate(x.extra):
            n = "x%d" % j
            if k in "fi":
                attr(rec, n, format(v, digits[r]), RAD[r], 12)
            elif k == "s":
                s_attr(rec, n, s)
            else:
                rec_obj(rec, n, x.o if deep else None)

    def rec_obj(rec, name, o):
        attr(rec, name, o.get_inst_id() if o is not None else 0, "d", 32)
        if o is not None:
            st["nested"] += 1
            attr(rec, name + ".q", "%X" % o.q, "h", 32)
            s_attr(rec, name + ".w", o.w)
            rec_obj(rec, name + ".deep", o.deep)

    def open_(stream, name, t, kind):
        n_rec[0] += 1
        st["opened"] += 1
        r = ("rec", n_rec[0])
        log.add("OPEN_RECORDER @%s {TXH:" % tm(now[0]), r, " STREAM:", stream, ' NAME:%s TIME:%s TYPE="%s"}' % (name, tm(t), kind))
        return r

    def close(rec, t):
        log.add("CLOSE_RECORDER @%s {TXH:" % tm(now[0]), rec, " TIME=%s}" % tm(t))

    def free(rec):
        log.add("FREE_RECORDER @%s {TXH:" % tm(now[0]), rec, "}")
        freed.add(rec)

    def link(a, b, rel):
        st["links"] += 1
        log.add("LINK @%s {TXH1:" % tm(now[0]), a, " TXH2:", b, " RELATION=%s}" % rel)
    freed, handles = set(), {}
    streams = {}

    def stream(ci, name, comps, type_=""):
        key = ("stream", ci, name or "main", type_)
        if key not in streams:
            streams[key] = True
            log.add("CREATE_STREAM @%s [NAME:%s T:%s SCOPE:%s STREAM:" % (tm(now[0]), name or "main", "TVM" if (name or "main") == "main" else type_, comps[ci].get_full_name()), key, "]")
        return key

    def m_begin(i, t, parent):
        m = M[i]
        t = t or now[0]
        if m["own"] is not None:
            m_end(i, t, True)
        m["end"], m["beg"] = -1, t
        if m["stream"] is not None:
            m["own"] = open_(m["stream"], m["type"], t, "Begin_End, Link" if parent else "Begin_No_Parent, Link")
            if parent:
                link(parent, m["own"], "child")
        m["want"]["begin"] += 1
        return m["own"]

    def m_end(i, t, fr):
        m = M[i]
        m["end"] = t or now[0]
        if m["stream"] is not None and m["own"] is not None:
            record(m["own"], i)
            close(m["own"], m["end"])
            if fr:
                free(m["own"])
        m["own"] = None
        m["want"]["end"] += 1

    class Top(UVMTest):
        def build_phase(self, phase):
            self.kids = [Comp("c0", self), Comp("c1", self)]

        async def run_phase(self, phase):
            phase.raise_objection(self)
            build()
            comps = self.kids
            db = UVMCoreService.get().get_default_tr_database()
            db.set_file_name(path)
            detail = list(case["detail"])
            for c, d in zip(comps, detail):
                c.recording_detail = UVM_FULL if d else UVM_NONE
            ccb = [{e: Count() for e in ("accept_tr", "begin_tr", "end_tr")} for _ in comps]
            cwant = [{e: 0 for e in ("accept_tr", "begin_tr", "end_tr")} for _ in comps]
            for c, d in zip(comps, ccb):
                for e, o in d.items():
                    c.event_pool.get(e).add_callback(o)
            for j, (dt, k, ti, ci, sname, lab, desc, t, par, flag) in enumerate(case["ops"]):
                if dt:
                    await Timer(dt, "NS")
                    now[0] += dt
                i = ti % len(txn)
                x, m, c = txn[i], M[i], comps[ci]
                parent, ph = None, 0
                if par is not None:
                    live = sorted(r for r in handles if r not in freed and r != m["own"])
                    if live:
                        parent = live[par % len(live)]
                        ph = handles[parent]
                what = "op %d %s of transaction %d" % (j, k, i)
                calls = []
                hooked.clear()
                if k == "cbegin":
                    if ci in m["at"]:
                        continue
                    # kept under the model: the transaction's own record first
                    if parent is not None and m["own"] == parent:
                        continue
                    own = m_begin(i, t, parent)
                    cr = None
                    if detail[ci]:
                        sk = stream(ci, sname, comps)
                        cr = open_(sk, m["name"], t or now[0], "Begin_End, Link" if parent else "Begin_No_Parent, Link")
                        if lab:
                            s_attr(cr, "label", lab)
                        if desc:
                            s_attr(cr, "desc", desc)
                        if parent:
                            link(parent, cr, "child")
                        if own is not None:
                            link(cr, own, "")
                        m["at"][ci] = cr
                    cwant[ci]["begin_tr"] += 1
                    h = c.begin_child_tr(x, ph, sname, lab, desc, t) if parent else c.begin_tr(x, sname, lab, desc, t)
                    if detail[ci]:
                        calls = [[c, "begin", x, sname, h]]
                    if cr is None:
                        eq(h, 0, what + ": handle without recording")
                    else:
                        check(h != 0, "%s: no handle", what)
                        handles[cr] = h
                        r = UVMRecorder.get_recorder_from_handle(h)
                        check(r is not None and r.get_handle() == h and r.is_open(), "%s: the handle's recorder", what)
                        eq(r.get_open_time(), t or now[0], what + ": open time")
                        check(ccb[ci]["begin_tr"].data is x, "%s: data of begin_tr event", what)
                elif k == "cend":
                    m_end(i, t, flag)
                    cr = None
                    if detail[ci] and ci in m["at"]:
                        cr = m["at"].pop(ci)
                        record(cr, i)
                        close(cr, t or now[0])
                        if flag:
                            free(cr)
                    cwant[ci]["end_tr"] += 1
                    if detail[ci]:
                        calls = [[c, "end", x, handles[cr] if cr else 0]]
                    r = UVMRecorder.get_recorder_from_handle(handles[cr]) if cr else None
                    c.end_tr(x, t, flag)
                    if r is not None:
                        check(not r.is_open(), "%s: the recorder is still open", what)
                        check(bool(r.is_closed()) == (not flag), "%s: is_closed of the recorder", what)
                        eq(r.get_close_time(), t or now[0], what + ": close time")
                elif k in ("begin", "child"):
                    if k == "child" and parent is None:
                        continue
                    own = m_begin(i, t, parent if k == "child" else None)
                    h = x.begin_child_tr(t, ph) if k == "child" else x.begin_tr(t)
                    check((h != 0) == (own is not None), "%s: handle %r", what, h)
                    if own is not None:
                        handles[own] = h
                elif k == "end":
                    m_end(i, t, flag)
                    x.end_tr(t, flag)
                elif k in ("accept", "caccept"):
                    m["acc"] = t or now[0]
                    m["want"]["accept"] += 1
                    if k == "accept":
                        x.accept_tr(t)
                    else:
                        cwant[ci]["accept_tr"] += 1
                        calls = [[c, "accept", x]]
                        c.accept_tr(x, t)
                elif k == "event":
                    sk = stream(ci, sname, comps)
                    er = open_(sk, lab, t or now[0], "Event" if flag else "Event, Link")
                    if lab:
                        s_attr(er, "label", lab)
                    if desc:
                        s_attr(er, "desc", desc)
                    if par:
                        record(er, i)
                    close(er, t or now[0])
                    if flag:
                        free(er)
                    f = c.record_error_tr if par == 2 else c.record_event_tr
                    h = f(sname, x if par else None, lab, desc, t, 0 if flag else 1)
                    if flag:
                        eq(h, 0, what + ": handle of an event record that is not kept")
                    else:
                        handles[er] = h
                elif k == "enable":
                    if m["own"] is not None:
                        continue
                    sn = sname if sname not in ("", "main") else "s1"
                    key = stream(ci, sn, comps, "tt" if flag else "")
                    m["stream"] = key
                    s1 = c.get_tr_stream(sn, "tt") if flag else c.get_tr_stream(sn)
                    check(s1 is (c.get_tr_stream(sn, "tt") if flag else c.get_tr_stream(sn)), "%s: get_tr_stream gives another stream", what)
                    x.enable_recording(s1)
                    check(x.is_recording_enabled(), "%s: is_recording_enabled", what)
                elif k == "disable":
                    if m["own"] is not None:
                        continue
                    m["stream"] = None
                    x.disable_recording()
                    check(not x.is_recording_enabled(), "%s: is_recording_enabled", what)
                elif k == "reopen":
                    if log.lines:
                        st["reopened"] += 1
                    check(db.close_db(), "%s: close_db", what)
                    check(not db.is_open(), "%s: is_open of a closed database", what)
                    if log.lines:
                        log.compare(open(path).read())
                    if flag:
                        check(db.open_db(), "%s: open_db", what)
                        check(db.is_open(), "%s: is_open", what)
                elif k == "detail":
                    if m["at"] or any(mm["at"] for mm in M):
                        continue
                    detail[ci] = not detail[ci]
                    c.recording_detail = UVM_FULL if detail[ci] else UVM_NONE
                eq(hooked, calls, what + ": calls of the component's hooks")
                for i2, (x2, m2) in enumerate(zip(txn, M)):
                    w2 = "%s: transaction %d" % (what, i2)
                    eq(x2.get_accept_time(), m2["acc"], w2 + " accept time")
                    eq(x2.get_begin_time(), m2["beg"], w2 + " begin time")
                    eq(x2.get_end_time(), m2["end"], w2 + " end time")
                    check(bool(x2.is_active()) == (m2["end"] == -1), "%s is_active", w2)
                    eq({e: o.n for e, o in m2["cb"].items()}, m2["want"], w2 + " events")
                    eq(x2.hooks, m2["want"], w2 + " calls of its hooks")
                    check((x2.get_tr_handle() != 0) == (m2["own"] is not None), "%s handle", w2)
                for c2 in range(2):
                    eq({e: o.n for e, o in ccb[c2].items()}, cwant[c2], "%s: events of component %d" % (what, c2))
                for r, h in handles.items():
                    check((UVMRecorder.get_recorder_from_handle(h) is None) == (r in freed), "%s: handle of %r (freed: %s)", what, r, r in freed)
            db.close_db()
            log.compare(open(path).read() if log.lines else "")
            for r, h in handles.items():
                eq(log.ids[r], h, "handle of %r in the database" % (r,))
            check(log.lines or not os.path.exists(path) or not open(path).read(), "records without recording")
            done.append(1)
            phase.drop_objection(self)
    done = []
    for k in (Comp, Top):
        from uvm import uvm_component_utils
        uvm_component_utils(k)
    uvm_run(Top)
    check(done, "run phase did not complete")
    rep.none_bad()
    return {"nontrivial": st["opened"] >= 2 and (st["links"] or st["nested"] or st["reopened"]), **st}


def run_seq(case, path):
    from uvm import (UVMSequence, UVMSequencer, UVMSequenceItem, UVMDriver, UVMTest, UVMCoreService, uvm_object_utils, uvm_component_utils)
    from uvm.base.uvm_object_globals import UVM_NONE, UVM_FULL
    from cocotb.triggers import Timer
    import cocotb
    rep = Reports()
    now = []
    runs = []
    from simkernel import now as know

    class Seq(UVMSequence):
        def __init__(self, name="sq"):
            super().__init__(name)
            self.node, self.key = None, None

        async def body(self):
            n = self.node
            if n["pre"]:
                await Timer(n["pre"], "NS")
            for j in range(n["items"]):
                it = UVMSequenceItem("it")
                await self.start_item(it)
                await self.finish_item(it)
            for q, kid in enumerate(n["kids"]):
                await launch(kid, self, q, self.key)
            if n["post"]:
                await Timer(n["post"], "NS")
    uvm_object_utils(Seq)

    async def launch(node, parent, q, pkey):
        s = Seq("%s%d" % (["sq", "z", "a"][node["name"]], q))
        s.node, s.key = node, len(runs)
        r = {"name": s.get_name(), "root": s.get_name() if parent is None else runs[pkey]["root"], "parent": pkey, "t0": know(), "t1": None}
        runs.append(r)
        await s.start(sqr[0], parent)
        r["t1"] = know()
    sqr = []

    class Drv(UVMDriver):
        async def run_phase(self, phase):
            while True:
                it = []
                await self.seq_item_port.get_next_item(it)
                await Timer(1, "NS")
                self.seq_item_port.item_done()

    class Top(UVMTest):
        def build_phase(self, phase):
            self.sqr = UVMSequencer("sqr", self)
            self.drv = Drv("drv", self)

        def connect_phase(self, phase):
            self.drv.seq_item_port.connect(self.sqr.seq_item_export)

        async def run_phase(self, phase):
            phase.raise_objection(self)
            sqr.append(self.sqr)
            db = UVMCoreService.get().get_default_tr_database()
            db.set_file_name(path)
            self.sqr.recording_detail = UVM_FULL if case["rec"] else UVM_NONE
            ts = [launch(n, None, q, None) for q, n in enumerate(case["roots"])]
            if case["par"]:
                ts = [cocotb.start_soon(t) for t in ts]
            for t in ts:
                await t
            db.close_db()
            phase.drop_objection(self)
    for k in (Drv, Top):
        uvm_component_utils(k)
    uvm_run(Top)
    text = open(path).read()
    streams, recs, order = {}, {}, []
    for ln in text.split("\n"):
        ln = ln.strip()
        m = re.fullmatch(r"CREATE_STREAM @\S+ \[NAME:(\S*) T:(\S*) SCOPE:(\S*) STREAM:(\d+)\]", ln)
        if m:
            check(m[4] not in streams, "stream handle %s used twice", m[4])
            eq(m[3], "uvm_test_top.sqr", "scope of stream")
            streams[m[4]] = m[1]
            continue
        m = re.fullmatch(r'OPEN_RECORDER @(\S+) \{TXH:(\d+) STREAM:(\d+) NAME:(\S*) TIME:(\S+) TYPE="(.*)"\}', ln)
        if m:
            check(m[2] not in recs, "record handle %s used twice", m[2])
            recs[m[2]] = {"name": m[4], "root": streams[m[3]], "t0": float(m[5]), "kind": m[6], "parent": None, "t1": None, "freed": False, "attrs": 0}
            order.append(m[2])
            continue
        m = re.fullmatch(r"LINK @\S+ \{TXH1:(\d+) TXH2:(\d+) RELATION=child\}", ln)
        if m:
            check(recs[m[2]]["parent"] is None, "record %s has two parents", m[2])
            check(m[1] in recs and not recs[m[1]]["freed"], "parent %s of %s", m[1], m[2])
            recs[m[2]]["parent"] = m[1]
            continue
        m = re.fullmatch(r"CLOSE_RECORDER @\S+ \{TXH:(\d+) TIME=(\S+)\}", ln)
        if m:
            check(recs[m[1]]["t1"] is None, "record %s closed twice", m[1])
            recs[m[1]]["t1"] = float(m[2])
            continue
        m = re.fullmatch(r"FREE_RECORDER @\S+ \{TXH:(\d+)\}", ln)
        if m:
            recs[m[1]]["freed"] = True
            continue
        check(not ln or ln.startswith("SET_ATTR"), "unexpected record %r", ln)
    if not case["rec"]:
        eq(len(recs), 0, "records without recording")
        return {"nontrivial": False, "sequences": len(runs)}
    eq(len(recs), len(runs), "number of recorded sequences")
    ids = {}
    for i, (h, r) in enumerate(zip(order, runs)):
        g = recs[h]
        ids[i] = h
        w = "sequence %d (%s)" % (i, r["name"])
        eq(g["name"], r["name"], w + " recorded as")
        eq(g["root"], r["root"], w + " recorded on stream")
        eq(g["parent"], ids[r["parent"]] if r["parent"] is not None else None, w + " parent record")
        eq(g["kind"], "Begin_End, Link" if r["parent"] is not None else "Begin_No_Parent, Link", w + " kind")
        eq((g["t0"], g["t1"]), (r["t0"] / 1000, r["t1"] / 1000), w + " times")
        check(g["freed"], "%s is not freed", w)
    rep.none_bad()
    return {"nontrivial": len(runs) >= 2 and any(r["parent"] is not None for r in runs), "sequences": len(runs)}
