import io
import re

from util import *

ID = "M03"
META = {
    "title": "Report catchers see, change, stop reports in order, with exact accounting",
    "statement": "For every set of report catchers on all or single reporters, each issued report passes the enabled catchers of its reporter in order; each sees the changes of those before it, and the first returning CAUGHT ends it. What is finally issued has exactly the severity, id, text, context and action they left, and the location it was made at: a changed severity brings the default action of the new severity unless the action was not the default or was set explicitly. Reports made inside a catcher are issued without being caught, print_catcher lists the enabled type-wide catchers in order, and the summary counts demoted and caught reports exactly.",
    "over": ["histories", "inputs"],
    "quant": "all catcher registrations (type-wide, per reporter, append or prepend, enabled or not), all scripted modifications, issue and nested reports, both debug flags, and all report sequences",
    "why": "Unit tests use one catcher; order, chaining and demotion accounting need several.",
    "files": ["src/uvm/base/uvm_report_catcher.py", "src/uvm/base/uvm_callback.py", "src/uvm/base/uvm_report_server.py"],
    "mech": [["UVMReportCatcher.process_all_report_catchers / process_report_catcher / issue", "src/uvm/base/uvm_report_catcher.py"], ["UVMReportServer.process_report_message", "src/uvm/base/uvm_report_server.py"]],
    "note": "Random catcher scripts against a reference pipeline.",
}
RULE = "a report passed two or more catchers, or was demoted or caught"
N = (250, 25000)
ASSUMPTIONS = ["no catcher is registered while a report is processed"]
IDS = ["A", "B"]
NC, NR = 4, 3
ACTS = [0, 1, 4, 5, 1, 2, 7]
LOCS = [["", 0, ""], ["file.py", 12, ""], ["", 3, "ctx"], ["dir/x.py", 1, "a.b"], ["f", 0, "ctx"]]
CTX = ["", "c1", "x.y"]
NLOC = ("nf", 7, "nc")


def step(g):
    return g.pick([lambda: ["sev", g.i(0, 3)], lambda: ["sev", g.i(0, 3)], lambda: ["id", g.pick(IDS)], lambda: ["msg", g.i(0, 9)],
                   lambda: ["act", g.pick(ACTS)], lambda: ["verb", g.pick([0, 100, 300])], lambda: ["issue"], lambda: ["ctx", g.i(0, 2)],
                   lambda: ["nest", g.i(0, 3), g.pick(IDS), g.pick([100, 100, 201])], lambda: ["other", g.i(0, NR - 1), g.i(0, 3), g.pick(IDS)]])()


def op(g):
    k = g.i(0, 9)
    if k == 0:
        return ["add", g.i(0, NR - 1), g.i(0, NC - 1), int(g.b())]
    if k == 1:
        return ["addtw", g.i(0, NC - 1), int(g.b())]
    if k == 2:
        return ["mode", g.i(0, NC - 1), int(g.b(2, 3))]
    if k == 3:
        return ["debug", g.pick([0, 0, 1, 2, 3])]
    if k == 4:
        return ["sevact", g.i(0, NR - 1), g.i(0, 3), g.pick([1, 5, 4, 1, 3, 2, 2])]
    return ["rep", g.i(0, NR - 1), g.i(0, 3), g.pick(IDS), g.pick(LOCS)]


def rule(g):
    return [g.subset(range(4), 1), g.subset(IDS, 1), g.some(0, 3, lambda: step(g)), g.pick([1, 1, 1, 2, 2, 0])]


def strategy():
    return gen(lambda g: {"rules": [g.some(1, 2, lambda: rule(g)) for _ in range(NC)], "pre": [["addtw", g.i(0, NC - 1), 0], ["add", g.i(0, NR - 1), g.i(0, NC - 1), 0]],
                          "ops": g.some(4, 24, lambda: op(g))}, 400)


def run(case):
    from uvm import UVMComponent
    from uvm.base.uvm_callback import UVMCallbacksBase
    from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
    from uvm.base.uvm_report_catcher import CAUGHT, THROW, UVMReportCatcher, UVMReportCb
    from uvm.base.uvm_report_server import UVMReportServer
    from uvm.base.uvm_object_globals import UVM_COUNT, UVM_DISPLAY, UVM_LOG
    ACT = [(1, UVM_DISPLAY), (2, UVM_LOG), (4, UVM_COUNT)]
    RET = {1: THROW, 2: CAUGHT, 0: 0}

    def act(a):
        return sum(c for b, c in ACT if a & b)
    done, out = [], []
    files = [io.StringIO() for _ in range(2 * NR)]

    class Server(UVMReportServer):
        def execute_report_message(self, m, composed):
            if m.get_id() in IDS + ["RPTCTHR"]:
                done.append((int(m.get_severity()), m.get_id(), m.get_message() if m.get_id() in IDS else "", m.get_action(), m.get_report_object().get_name(), m.get_verbosity(), files.index(m.get_file()),
                             (m.get_filename(), m.get_line(), m.get_context())))
            super().execute_report_message(m, composed)
    server = Server("srv")
    server.set_logger(out.append)
    UVMReportServer.set_server(server)
    UVMCallbacksBase.m_tracing = False
    comps = [UVMComponent("r%d" % i, None) for i in range(NR)]
    for c, f in zip(comps, files):
        c.set_report_default_file(f)
    for c, f in zip(comps, files[NR:]):
        c.set_report_id_file("B", f)
    fno = lambda r, i: r + NR * (i == "B")
    sevact = [[1, 1, 5, 1] for _ in comps]
    for c in comps:
        c.set_report_severity_action(3, UVM_DISPLAY)
    seen, st = [], {"reports": 0, "caught": 0, "demoted": 0, "chained": 0}

    class Catcher(UVMReportCatcher):
        def catch(self):
            me = (int(self.get_severity()), self.get_id(), self.get_message(), self.get_action(), self.get_verbosity())
            seen.append((self.k,) + me + (self.get_client().get_name(), self.get_context(), self.get_fname(), self.get_line()))
            for sevs, ids, steps, ret in case["rules"][self.k]:
                if me[0] in sevs and me[1] in ids:
                    for s in steps:
                        self.step(s)
                    return RET[ret]
            return THROW

        def step(self, s):
            if s[0] == "sev":
                self.set_severity(s[1])
            elif s[0] == "id":
                self.set_id(s[1])
            elif s[0] == "msg":
                self.set_message("changed%d" % s[1])
            elif s[0] == "act":
                self.set_action(act(s[1]))
            elif s[0] == "verb":
                self.set_verbosity(s[1])
            elif s[0] == "ctx":
                self.set_context(CTX[s[1]])
            elif s[0] == "issue":
                self.issue()
            elif s[0] == "nest":
                (self.uvm_report_info, self.uvm_report_warning, self.uvm_report_error, self.uvm_report_fatal)[s[1]](s[2], "nested", s[3], *NLOC)
            else:
                comps[s[1]].uvm_report(s[2], s[3], "other", 100)
    cats = [Catcher("cat%d" % i) for i in range(NC)]
    for i, c in enumerate(cats):
        c.k = i
    tw, inst, on, flags = [], {}, [True] * NC, 0
    demoted, caught = [0] * 4, [0] * 4

    def put(q, c, pre):
        if c not in q:
            q.insert(0 if pre else len(q), c)

    for n, o in enumerate(case["pre"] + case["ops"]):
        if o[0] == "add":
            if o[2] in inst.get(o[1], tw):
                continue
            UVMReportCb.add(comps[o[1]], cats[o[2]], UVM_PREPEND if o[3] else UVM_APPEND)
            put(inst.setdefault(o[1], list(tw)), o[2], o[3])
        elif o[0] == "addtw":
            if o[1] in tw:
                continue
            UVMReportCb.add(None, cats[o[1]], UVM_PREPEND if o[2] else UVM_APPEND)
            put(tw, o[1], o[2])
            for q in inst.values():
                put(q, o[1], o[2])
        elif o[0] == "mode":
            cats[o[1]].callback_mode(o[2])
            on[o[1]] = bool(o[2])
        elif o[0] == "debug":
            flags = o[1]
            UVMReportCatcher.debug_report_catcher(sum([UVMReportCatcher.DO_NOT_CATCH * (flags & 1), UVMReportCatcher.DO_NOT_MODIFY * (flags >> 1)]))
        elif o[0] == "sevact":
            comps[o[1]].set_report_severity_action(o[2], act(o[3]))
            sevact[o[1]][o[2]] = o[3]
        else:
            _, r, sev, id_, (fname, line, ctx) = o
            del done[:], seen[:], out[:]
            for f in files:
                f.seek(0)
                f.truncate()
            comps[r].uvm_report(sev, id_, "text%d" % n, 100, fname, line, ctx)
            # reference pipeline
            want, calls = [], []
            m = dict(sev=sev, id=id_, msg="text%d" % n, act=sevact[r][sev], verb=100, ctx=ctx)
            none = ("", 0, "")
            orig, stopped, chain = dict(m), False, 0
            for c in (inst[r] if r in inst else tw):
                if not on[c]:
                    continue
                chain += 1
                calls.append((c, m["sev"], m["id"], m["msg"], act(m["act"]), m["verb"], "r%d" % r, m["ctx"] or "r%d" % r, fname, line))
                ret, prev, explicit = 1, m["sev"], False
                for sevs, ids, steps, rr in case["rules"][c]:
                    if m["sev"] in sevs and m["id"] in ids:
                        for s in steps:
                            if s[0] in ("sev", "id", "verb"):
                                m[s[0]] = s[1]
                            elif s[0] == "msg":
                                m["msg"] = "changed%d" % s[1]
                            elif s[0] == "ctx":
                                m["ctx"] = CTX[s[1]]
                            elif s[0] == "act":
                                m["act"], explicit = s[1], True
                            elif s[0] == "issue":
                                if m["act"]:
                                    want.append((m["sev"], m["id"], m["msg"], act(m["act"]), "r%d" % r, m["verb"], fno(r, id_), (fname, line, m["ctx"])))
                            elif s[0] == "nest":
                                if s[1] or s[3] <= 200:
                                    want.append((s[1], s[2], "nested", act(sevact[r][s[1]]), "r%d" % r, 0 if s[1] else s[3], fno(r, s[2]), NLOC))
                            else:
                                want.append((s[2], s[3], "other", act(sevact[s[1]][s[2]]), "r%d" % s[1], 100, fno(s[1], s[3]), none))
                        ret = rr
                        break
                if ret == 0:
                    want.append((2, "RPTCTHR", "", act(sevact[r][2]), "r%d" % r, 0, r, none))
                if flags & 2:
                    m = dict(orig)
                elif not explicit and m["sev"] != prev and m["act"] == sevact[r][prev]:
                    m["act"] = sevact[r][m["sev"]]
                if ret == 2 and not flags & 1:
                    caught[sev] += 1
                    st["caught"] += 1
                    stopped = True
                    break
            if m["sev"] < sev:
                demoted[sev] += 1
                st["demoted"] += 1
            if not stopped and m["act"]:
                want.append((m["sev"], m["id"], m["msg"], act(m["act"]), "r%d" % r, m["verb"], fno(r, id_), (fname, line, m["ctx"])))
            eq(seen, calls, "what the catchers saw of report %d" % n)
            eq(done, want, "reports issued for report %d" % n)
            lines = lambda a: [["UVM_" + ["INFO", "WARNING", "ERROR", "FATAL"][w[0]], *(w[7][:2] if w[7][0] else ("", 0)), w[4], w[7][2], w[1], w[2]] for w in want if w[3] & a]
            texts = lambda q: [[x or "" for x in (re.match(r"(\w+) (?:([\w./]+)\((\d+)\) )?@ .*?: (\w+)(?:@@([\w.]+))? \[(\w+)\] (.*)$", t) or re.match("()()()()()()(.*)", t)).groups()] for t in q]
            strip = lambda q: [[a, f, int(ln or 0), r_, x, c, d if c != "RPTCTHR" else ""] for a, f, ln, r_, x, c, d in q]
            eq(strip(texts(out)), lines(UVM_DISPLAY), "displayed for report %d" % n)
            for k, f in enumerate(files):
                eq(strip(texts(f.getvalue().splitlines())), [b for a, b in zip([w for w in want if w[3] & UVM_LOG], lines(UVM_LOG)) if a[6] == k], "logged in file %d for report %d" % (k, n))
            st["reports"] += 1
            st["chained"] += chain > 1
    for i, c in enumerate(cats):
        got = UVMReportCatcher.get_report_catcher("cat%d" % i)
        if i in tw and on[i]:
            check(got is c, "get_report_catcher('cat%d') returned %r", i, got)
    check(UVMReportCatcher.get_report_catcher("nobody") is None, "get_report_catcher of an unknown name")
    for c in cats:
        c.k, case["rules"][0] = 0, []                    # from here on they let everything pass
    del out[:]
    UVMReportCatcher.print_catcher()
    eq(re.findall(r"^ *(cat\d+) : (\w+) *$", "\n".join(out), re.M), [("cat%d" % i, "ON") for i in tw if on[i]], "catchers printed: %r" % out)
    del out[:]
    server.get_summary_string()
    text = "".join(out)
    for what, cnt in (("demoted", demoted), ("caught", caught)):
        for s, name in ((1, "WARNING"), (2, "ERROR"), (3, "FATAL")):
            mt = re.search(r"Number of %s UVM_%s reports *:(\d+)" % (what, name), text)
            check(mt, "summary lacks the number of %s %s reports: %s", what, name, text)
            eq(int(mt.group(1)), cnt[s], "number of %s UVM_%s reports in the summary" % (what, name))
    return {"nontrivial": bool(st["chained"] or st["caught"] or st["demoted"]), **st}
