import io
import random

from util import *

ID = "M01"
META = {
    "title": "Reports are filtered, overridden, routed by the most specific setting",
    "statement": "For every configuration of a component tree or report object, a report is issued exactly when its verbosity does not exceed the verbosity set for its severity and id, else for its id, else for its reporter. Its severity override, action and log file likewise come from the most specific setting made, it is displayed, logged and counted exactly as the action says, once, and hierarchical settings reach the whole subtree. The report macros and methods agree, a report that goes on leaves the random number sequence as it was, and resetting the handler restores the defaults.",
    "over": ["histories", "inputs"],
    "quant": "all sequences of verbosity, action, file and override settings (plain and hierarchical), component creations, resets and reports of every severity through every reporting route",
    "why": "Unit tests set one option on one reporter; precedence, inheritance and overrides interact.",
    "files": ["src/uvm/base/uvm_report_handler.py", "src/uvm/base/uvm_report_object.py", "src/uvm/base/uvm_report_server.py", "src/uvm/base/uvm_component.py", "src/uvm/macros/uvm_message_defines.py"],
    "mech": [["UVMReportHandler.process_report_message / get_action / get_verbosity_level / get_file_handle", "src/uvm/base/uvm_report_handler.py"], ["UVMReportServer.execute_report_message", "src/uvm/base/uvm_report_server.py"], ["set_report_*_hier", "src/uvm/base/uvm_component.py"]],
    "note": "Random configurations against a table model of every reporter; output seen through the server's logger and in-memory files.",
}
RULE = "a report met settings at two or more levels of specificity, or an override"
N = (250, 25000)
ASSUMPTIONS = ["a severity override and overrides of other severities for the same id are not mixed for one report", "every handler with log actions has a default file", "transaction recording of messages is not used"]
VERBS = [0, 100, 200, 300, 400, 500, 150]
IDS = ["A", "uvm.x"]
NF = 4


def setting(g):
    sev = g.pick([0, 2, 1, 2, 3])
    k = g.pick(["verb", "idverb", "sidverb", "sevact", "idact", "sidact", "deffile", "sevfile", "idfile", "sidfile", "sevov", "sidov"])
    return [k, sev, g.pick(IDS), g.pick(VERBS), g.pick([0, 1, 2, 3, 3, 4, 5, 7, 6]), g.i(0, NF - 1) if k == "deffile" or g.b(4, 5) else -1, g.i(0, 3)]


def op(g):
    k = g.i(0, 9)
    if k <= 3:
        return ["set", g.i(0, 5), int(g.b()), setting(g)]
    if k == 4:
        return ["new", g.i(0, 5)]
    if k == 5 and g.b(1, 3):
        return ["reset", g.i(0, 5)]
    return ["report", g.i(0, 5), g.pick(["method", "report", "macro", "macro", "plain"]), g.pick([0, 2, 1, 2, 3]), g.pick(IDS), g.pick(VERBS)]


def strategy():
    return gen(lambda g: {"ops": g.some(10, 60, lambda: op(g))}, 900)


class Model:
    def __init__(self, verb=200):
        self.reset()
        self.verb = verb

    def reset(self):
        self.verb = 200
        self.deff = None
        self.idverb, self.sidverb, self.idact, self.sidact = {}, {}, {}, {}
        self.sevact = {0: 1, 1: 1, 2: 1 | 4, 3: 1 | 8}
        self.sevfile, self.idfile, self.sidfile = {}, {}, {}
        self.sevov, self.sidov = {}, {}

    def apply(self, s):
        k, sev, id_, verb, act, f, to = s
        if k == "verb":
            self.verb = verb
        elif k == "deffile":
            self.deff = f
        elif k == "idverb":
            self.idverb[id_] = verb
        elif k == "idact":
            self.idact[id_] = act
        elif k == "idfile":
            self.idfile[id_] = f
        elif k == "sidverb":
            self.sidverb[sev, id_] = verb
        elif k == "sidact":
            self.sidact[sev, id_] = act
        elif k == "sidfile":
            self.sidfile[sev, id_] = f
        elif k == "sevact":
            self.sevact[sev] = act
        elif k == "sevfile":
            self.sevfile[sev] = f
        elif k == "sevov":
            self.sevov[sev] = to
        else:
            self.sidov[sev, id_] = to

    def verbosity(self, sev, id_):
        return self.sidverb.get((sev, id_), self.idverb.get(id_, self.verb))

    def action(self, sev, id_):
        return self.sidact.get((sev, id_), self.idact.get(id_, self.sevact[sev]))

    def file(self, sev, id_):
        for f in (self.sidfile.get((sev, id_), -1), self.idfile.get(id_, -1), self.sevfile.get(sev, -1)):
            if f >= 0:      # -1: never set, or set back to no file (0)
                return f
        return self.deff

    def ambiguous(self, sev, id_):
        return (sev, id_) not in self.sidov and sev in self.sevov and any(i == id_ for s, i in self.sidov)

    def severity(self, sev, id_):
        return self.sidov.get((sev, id_), self.sevov.get(sev, sev))


def run(case):
    from uvm import UVMComponent, UVMReportObject
    from uvm.base.uvm_report_server import UVMReportServer
    from uvm.macros.uvm_message_defines import uvm_error, uvm_fatal, uvm_info, uvm_warning
    from uvm.base.uvm_object_globals import (UVM_COUNT, UVM_DISPLAY, UVM_ERROR, UVM_EXIT, UVM_FATAL, UVM_INFO, UVM_LOG, UVM_WARNING)
    eq([UVM_INFO, UVM_WARNING, UVM_ERROR, UVM_FATAL], [0, 1, 2, 3], "severity codes")
    ACT = [(1, UVM_DISPLAY), (2, UVM_LOG), (4, UVM_COUNT), (8, UVM_EXIT)]
    SEVN = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"]

    def act(a):
        return sum(c for b, c in ACT if a & b)
    out = []
    server = UVMReportServer("srv")

    def logger(s):
        random.random()             # (whatever writes the reports may use random numbers)
        out.append(s)
    server.set_logger(logger)
    UVMReportServer.set_server(server)
    files = [io.StringIO() for _ in range(NF + 1)]

    class Comp(UVMComponent):
        def macro(self, sev, id_, msg, verb):
            if sev == 0:
                uvm_info(id_, msg, verb)
            else:
                (uvm_warning, uvm_error, uvm_fatal)[sev - 1](id_, msg)

    class Ro(UVMReportObject):
        macro = Comp.macro
    reps = [Comp("top", None), Ro("ro")]
    names = ["top", "ro"]
    kids = {0: [], 1: []}
    mods = [Model(), Model()]
    for r in reps:
        r.set_report_default_file(files[NF])
    for m in mods:
        m.deff = NF
    st = {"reports": 0, "issued": 0, "layered": 0}

    def subtree(i):
        return [i] + [x for k in kids[i] for x in subtree(k)]

    def push(r, hier, s):
        k, sev, id_, verb, a, f, to = s
        sfx = "_hier" if hier else ""
        fh = files[f] if f >= 0 else 0
        name, args = {
            "verb": ("verbosity_level", (verb,)), "idverb": ("id_verbosity", (id_, verb)), "sidverb": ("severity_id_verbosity", (sev, id_, verb)),
            "sevact": ("severity_action", (sev, act(a))), "idact": ("id_action", (id_, act(a))), "sidact": ("severity_id_action", (sev, id_, act(a))),
            "deffile": ("default_file", (files[f],)), "sevfile": ("severity_file", (sev, fh)), "idfile": ("id_file", (id_, fh)),
            "sidfile": ("severity_id_file", (sev, id_, fh)), "sevov": ("severity_override", (sev, to)),
            "sidov": ("severity_id_override", (sev, id_, to))}[k]
        getattr(r, "set_report_" + name + sfx)(*args)

    for n, o in enumerate(case["ops"]):
        i = o[1] % len(reps)
        r, m = reps[i], mods[i]
        if o[0] == "set":
            hier = o[2] and i != 1 and o[3][0] not in ("sevov", "sidov")
            push(r, hier, o[3])
            for j in subtree(i) if hier else [i]:
                mods[j].apply(o[3])
        elif o[0] == "new":
            if i == 1 or len(reps) >= 6:
                continue
            j = len(reps)
            reps.append(Comp("c%d" % j, r))
            names.append(names[i] + ".c%d" % j)
            kids[i].append(j)
            kids[j] = []
            mods.append(Model(m.verb))
            reps[j].set_report_default_file(files[NF])
            mods[j].deff = NF
        elif o[0] == "reset":
            r.reset_report_handler()
            m.reset()
            r.set_report_default_file(files[NF])
            m.deff = NF
        else:
            _, _, route, sev, id_, verb = o
            eff = m.verbosity(sev, id_)
            eq(r.get_report_verbosity_level(sev, id_), eff, "%s: verbosity for severity %d, id %s" % (names[i], sev, id_))
            eq(bool(r.uvm_report_enabled(verb, sev, id_)), eff >= verb, "uvm_report_enabled(%d)" % verb)
            eq(r.get_report_action(sev, id_), act(m.action(sev, id_)), "%s: action for severity %d, id %s" % (names[i], sev, id_))
            check(r.get_report_file_handle(sev, id_) is files[m.file(sev, id_)], "%s: wrong log file for severity %d, id %s", names[i], sev, id_)
            if m.ambiguous(sev, id_):
                continue
            text = "msg%d$" % n
            before = [(server.get_severity_count(s)) for s in range(4)]
            idb = server.get_id_count(id_)
            if route == "macro" and sev:
                verb = 0
            if route == "plain":
                verb = (200, 200, 100, 0)[sev]
            s2 = m.severity(sev, id_)
            a = m.action(s2, id_) if eff >= verb else 0
            del out[:]
            size = [len(f.getvalue()) for f in files]
            died = False
            rnd = random.getstate()
            try:
                if route == "macro":
                    r.macro(sev, id_, text, verb)
                elif route == "report":
                    r.uvm_report(sev, id_, text, verb)
                elif route == "plain":
                    r.uvm_report(sev, id_, text)
                else:
                    (r.uvm_report_info, r.uvm_report_warning, r.uvm_report_error, r.uvm_report_fatal)[sev](id_, text, verb)
            except Exception as e:
                if type(e).__name__ != "UVMFinishError":
                    raise
                died = True
            check(died or random.getstate() == rnd, "a report through %s drew random numbers", route)
            what = "%s reporting severity %d (now %d), id %s, verbosity %d through %s with action %d" % (names[i], sev, s2, id_, verb, route, a)
            eq(died, bool(a & 8), "%s: simulation ended" % what)
            lines = [x for x in out if text in x]
            eq(len(lines), int(bool(a & 1)), "%s: times displayed" % what)
            for k, f in enumerate(files):
                new = f.getvalue()[size[k]:]
                eq(new.count(text), int(bool(a & 2) and k == m.file(s2, id_)), "%s: times written to file %d" % (what, k))
                if text in new:
                    lines.append(new)
            for x in lines:
                check(x.startswith(SEVN[s2] + " "), "%s: line %r has the wrong severity", what, x)
                check(" %s [%s] %s" % (names[i], id_, text) in x, "%s: line %r lacks the reporter, id or text", what, x)
            if not died:
                eq([server.get_severity_count(s) for s in range(4)],
                   [b + int(s == s2 and a != 0) for s, b in enumerate(before)], "%s: severity counts" % what)
                eq(server.get_id_count(id_), idb + int(a != 0), "%s: id count" % what)
            st["reports"] += 1
            st["issued"] += int(a != 0)
            layers = sum([(sev, id_) in m.sidverb, id_ in m.idverb]) > 1 or sum([(s2, id_) in m.sidact, id_ in m.idact]) > 1 or \
                sum([(s2, id_) in m.sidfile, id_ in m.idfile, s2 in m.sevfile]) > 1
            st["layered"] += int(layers or s2 != sev)
    return {"nontrivial": st["layered"] > 0, **st}
