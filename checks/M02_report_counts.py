import re

from util import *

ID = "M02"
META = {
    "title": "Report counts, quit count, exit and summary account for every report",
    "statement": "For every sequence of reports and server settings, the counts by severity and id, the quit count and the summary equal what was actually issued since they were last set. The simulation ends exactly at the first report whose action includes UVM_EXIT or that makes the quit count reach a non-zero maximum, after pre_abort ran once on every component, children before parents, and the summary was printed. Suppressed reports count nowhere, and a maximum declared not overridable stays.",
    "over": ["histories", "inputs"],
    "quant": "all sequences of reports with every severity, action and verbosity from several components, count and maximum settings, and summary queries",
    "why": "Unit tests check single counters; which report ends the simulation depends on the whole history.",
    "files": ["src/uvm/base/uvm_report_server.py", "src/uvm/base/uvm_root.py", "src/uvm/base/uvm_component.py"],
    "mech": [["UVMReportServer counts, is_quit_count_reached, get_summary_string", "src/uvm/base/uvm_report_server.py"], ["UVMRoot.die / m_do_pre_abort", "src/uvm/base/uvm_root.py"]],
    "note": "Random histories against a counter model.",
}
RULE = "the run ended through the quit count, or counts were read after five or more issued reports"
N = (250, 25000)
ASSUMPTIONS = ["the history ends at the first exit", "quit counting starts when a maximum is set"]
IDS = ["A", "B", "C/d"]


def op(g):
    k = g.i(0, 11)
    if k == 0:
        return ["max", g.i(-1, 5), int(g.b(7, 8))]
    if k == 1:
        return ["quit", g.i(-1, 3)]
    if k == 2:
        return [g.pick(["resetquit", "resetsev", "query", "query"])]
    if k == 3:
        return g.pick([["sev", g.i(0, 3), g.i(-1, 9)], ["id", g.pick(IDS), g.i(-1, 9)]])
    if k == 4:
        return ["act", g.i(0, 3), g.pick([1, 5, 4, 0, 2, 1, 5, 9, 13, 8]), g.i(0, 9)]
    return ["rep", g.i(0, 9), g.pick([0, 1, 2, 2, 3]), g.pick(IDS), g.pick([0, 100, 200, 300])]


def strategy():
    return gen(lambda g: {"tree": [g.i(0, i) for i in range(g.i(0, 6))], "first": g.i(0, 4), "show": g.b(), "ids": g.b(3, 4),
                          "rec": g.b(1, 4), "ops": g.some(5, 40, lambda: op(g))}, 400)


def run(case):
    from uvm import UVMComponent
    from uvm.base.uvm_report_server import UVMReportServer
    from uvm.base.uvm_object_globals import UVM_COUNT, UVM_DISPLAY, UVM_EXIT, UVM_LOG
    ACT = [(1, UVM_DISPLAY), (2, UVM_LOG), (4, UVM_COUNT), (8, UVM_EXIT)]
    SEVN = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"]
    out, aborts = [], []
    server = UVMReportServer("srv")
    server.set_logger(out.append)
    UVMReportServer.set_server(server)
    server.show_verbosity = case["show"]
    server.show_terminator = not case["show"]
    server.enable_report_id_count_summary = case["ids"]
    server.record_all_messages = case["rec"]

    class Comp(UVMComponent):
        def pre_abort(self):
            aborts.append(self.get_full_name())
    comps, parent = [Comp("t", None)], [None]
    for i, p in enumerate(case["tree"]):
        comps.append(Comp("c%d" % i, comps[p]))
        parent.append(p)
    acts = [dict(enumerate([1, 1, 5, 9])) for _ in comps]
    sev = [0, 0, 0, 0]
    ids = {}
    quit, mx, overridable = 0, 0, True
    issued = ended = 0
    server.reset_severity_counts()

    def setmax(n, ov):
        nonlocal mx, overridable
        server.set_max_quit_count(n, bool(ov))
        if not overridable:
            sev[0] += 1
            ids["NOMAXQUITOVR"] = ids.get("NOMAXQUITOVR", 0) + 1
            return
        mx, overridable = max(n, 0), bool(ov)

    def query():
        eq([server.get_severity_count(s) for s in range(4)], sev, "counts by severity")
        for i in IDS + ["never"]:
            eq(server.get_id_count(i), ids.get(i, 0), "count of id %s" % i)
        eq(server.get_quit_count(), quit, "quit count")
        eq(server.get_max_quit_count(), mx, "maximum quit count")
        eq(bool(server.is_quit_count_reached()), quit >= mx, "is_quit_count_reached")
        q = []
        server.get_severity_set(q)
        eq(sorted(int(x) for x in q), [0, 1, 2, 3], "severities with a count")
        q = []
        server.get_id_set(q)
        check(len(q) == len(set(q)) and {i for i in ids if ids[i]} <= set(q), "ids with a count %r, expected %r", q, ids)
    setmax(case["first"], True)
    for o in case["ops"]:
        if o[0] == "max":
            setmax(o[1], o[2])
        elif o[0] == "quit":
            server.set_quit_count(o[1])
            quit = max(o[1], 0)
        elif o[0] == "resetquit":
            server.reset_quit_count()
            quit = 0
        elif o[0] == "resetsev":
            server.reset_severity_counts()
            sev = [0, 0, 0, 0]
        elif o[0] == "sev":
            server.set_severity_count(o[1], o[2])
            sev[o[1]] = max(o[2], 0)
        elif o[0] == "id":
            server.set_id_count(o[1], o[2])
            ids[o[1]] = max(o[2], 0)
        elif o[0] == "act":
            i = o[3] % len(comps)
            comps[i].set_report_severity_action(o[1], sum(c for b, c in ACT if o[2] & b))
            acts[i][o[1]] = o[2]
        elif o[0] == "query":
            query()
            text = server.get_summary_string()
            for s in range(4):
                check("%s : %d\n" % (SEVN[s], sev[s]) in text, "summary lacks '%s : %d': %s", SEVN[s], sev[s], text)
            shown = dict((a, int(b)) for a, b in re.findall(r"^\[(.*)\] (\d+)$", text, re.M))
            want = {i: n for i, n in ids.items() if n and i in IDS}
            eq({i: n for i, n in shown.items() if n and i in IDS}, want if case["ids"] else {}, "ids of the summary")
            eq("Quit count : %d of %d\n" % (quit, mx) in text, mx != 0, "quit count in the summary %r" % text)
            eq("Quit count reached!" in text, mx != 0 and quit >= mx, "'Quit count reached!' in the summary")
        else:
            _, i, s, id_, verb = o
            i %= len(comps)
            a = acts[i][s] if verb <= 200 else 0
            n = len(out)
            exits = False
            if a:
                issued += 1
                sev[s] += 1
                ids[id_] = ids.get(id_, 0) + 1
                if a & 4 and mx:
                    quit += 1
                    exits = quit >= mx
                    ended += exits
            exits = exits or bool(a & 8)
            try:
                comps[i].uvm_report(s, id_, "text", verb)
                died = False
            except Exception as e:
                if type(e).__name__ != "UVMFinishError":
                    raise
                died = True
            eq(died, exits, "report of severity %d with action %d, quit count %d of %d ended the run" % (s, a, quit, mx))
            lines = [x for x in out[n:] if "[%s] text" % id_ in x]
            if a & 1:
                eq(len(lines), 1, "times displayed")
                tag = {0: "UVM_NONE", 100: "UVM_LOW", 200: "UVM_MEDIUM"}[verb]
                check(lines[0].startswith(SEVN[s] + ("(%s)" % tag if case["show"] else "") + " "), "displayed line %r", lines[0])
                eq(lines[0].endswith(" -" + SEVN[s]), not case["show"], "terminator of the displayed line")
            elif a == 0:
                eq(lines, [], "suppressed report displayed")
            if died:
                eq(sorted(aborts), sorted(c.get_full_name() for c in comps), "components whose pre_abort ran")
                for c, p in zip(comps, parent):
                    if p is not None:
                        check(aborts.index(c.get_full_name()) < aborts.index(comps[p].get_full_name()), "pre_abort of a parent ran before its child's: %r", aborts)
                check(any("UVM Report Summary" in x and "%s : %d\n" % (SEVN[s], sev[s]) in x for x in out), "no summary with the final counts printed")
                break
            eq(aborts, [], "pre_abort calls")
    else:
        query()
    return {"nontrivial": bool(ended) or issued >= 5, "issued": issued, "quit": ended}
