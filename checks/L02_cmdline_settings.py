import M01_report_filtering as M01
from util import *

ID = "L02"
META = {
    "title": "Command line settings take effect where and when they say, and only there",
    "statement": "For every command line, +UVM_VERBOSITY sets the initial verbosity, +uvm_set_verbosity/_action/_severity settings apply, in order, to exactly the components their pattern matches, at construction, at the start of the named phase (plus the offset), or at the given time; malformed settings are reported and change nothing, and settings that matched nothing are reported. +uvm_set_config_int/_string reach exactly the matching components with the value in its base, +UVM_TESTNAME selects the test, and +UVM_MAX_QUIT_COUNT and +UVM_TIMEOUT hold, against the user's code when not overridable.",
    "over": ["inputs", "schedules", "configurations"],
    "quant": "all combinations of these plus arguments (valid and malformed, repeated, with glob patterns, phases, offsets and times) and component trees, observed in every phase and between all settings' times",
    "why": "Unit tests do not run simulations with command lines; timing and matching need whole runs.",
    "files": ["src/uvm/base/uvm_component.py", "src/uvm/base/uvm_root.py", "src/uvm/base/uvm_cmdline_processor.py", "src/uvm/base/uvm_globals.py", "src/uvm/base/uvm_report_server.py"],
    "mech": [["UVMComponent.m_set_cl_verb / m_apply_verbosity_settings / m_set_cl_action / m_set_cl_sev", "src/uvm/base/uvm_component.py"], ["UVMRoot.build_phase and m_do_* / m_process_config", "src/uvm/base/uvm_root.py"]],
    "note": "Whole runs, uvm imported anew with the command line; the report settings of every component are compared with a model in each phase and at every time.",
}
RULE = "a phase, offset or time setting applied, or a malformed one met, and two settings matched one component"
N = (60, 9000)
ASSUMPTIONS = ["scopes of configuration settings start at the hierarchy root or with '*'", "a timed setting and a phase setting never fall on the same instant", "the phase timeout is checked as a setting (its enforcement is not ported)"]
NAMES = ["a", "b", "ab"]
IDS = ["A", "B"]
VERBS = {"NONE": 0, "UVM_NONE": 0, "LOW": 100, "UVM_LOW": 100, "MEDIUM": 200, "UVM_MEDIUM": 200, "HIGH": 300, "UVM_HIGH": 300,
         "FULL": 400, "UVM_FULL": 400, "DEBUG": 500, "UVM_DEBUG": 500}
SEVS = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"]
ACTS = [("UVM_NO_ACTION", 0), ("UVM_DISPLAY", 1), ("UVM_LOG", 2), ("UVM_DISPLAY|UVM_LOG", 3), ("UVM_COUNT", 4), ("UVM_DISPLAY|UVM_COUNT", 5),
        ("UVM_LOG|UVM_COUNT|UVM_DISPLAY", 7), ("UVM_EXIT", 8), ("UVM_DISPLAY|UVM_NO_ACTION", 1)]
FUNCS = ["connect", "end_of_elaboration", "start_of_simulation"]
U = 8          # timed settings at multiples of U; run offsets at U*k+2; D = U*k+4; shutdown offsets at +2


def pattern(g):
    return g.pick(["uvm_test_top", "uvm_test_top*", "uvm_test_top.*", "*b", "*.a", "*.?", "*a*", "uvm_test_top.a", "uvm_test_top.a.*", "*.a?", "nosuch", "*.b.*",
                   "top", "*"])


def verb(g):
    s = [pattern(g), g.pick(IDS + ["_ALL_"]), g.pick(sorted(VERBS))]
    ph = g.pick(["", "build", "time", "run", "shutdown", "time", "run"] + FUNCS)
    s.append(ph)
    if ph == "time":
        s.append(str(U * g.i(1, 4)))
    elif ph in ("run", "shutdown") and g.b():
        s.append(str(U * g.i(0, 3) + 2))
    elif ph in FUNCS and g.b(1, 4):
        s.append(str(U * g.i(0, 3) + 3))
    elif g.b(1, 5):
        s.append("0")
    k = g.i(0, 11)
    if k == 0:
        s[2] = g.pick(["", "uvm_low", "LOUD", "100"])
    elif k == 1:
        s = g.pick([s[:1], s[:2], s[:3], (s + ["0", "1"])[:6], s[:0]])
    return "+uvm_set_verbosity=" + ",".join(s)


def actsev(g):
    act = g.b()
    pat = pattern(g)
    s = ["*top" if pat == "*" else pat, g.pick(IDS + ["_ALL_"]), g.pick(SEVS + ["_ALL_"]), g.pick([a for a, _ in ACTS]) if act else g.pick(SEVS)]
    k = g.i(0, 11)
    if k == 0:
        s[2] = g.pick(["", "UVM_NONE", "INFO", "uvm_error"])
    elif k == 1:
        s = g.pick([s[:1], s[:3], s + ["x"], s[:2], s[:0]])
    elif k == 2:
        s[3] = g.pick(["", "UVM_DISPLAYS", "UVM_LOG|bad", "LOG"]) if act else g.pick(["", "WARNING", "_ALL_"])
    return ("+uvm_set_action=" if act else "+uvm_set_severity=") + ",".join(s)


def cfg(g):
    pat = pattern(g)
    pat = "x.top" if pat == "top" else pat
    if g.b(2, 3):
        return ["+uvm_set_config_int=", "+UVM_SET_CONFIG_INT="][g.i(0, 1)] + ",".join([pat, g.pick(["f", "g"]), g.pick(
            ["5", "'b101", "0b11", "'o17", "'d12", "'hff", "'x1A", "0xbeef", "0", "42", "1234"])])
    s = [pat, g.pick(["f", "g"]), g.pick(["str", "", "a b", "0x10", "uvm_x"])]
    if g.b(1, 20):
        s = g.pick([s[:1], s[:2], s + ["more"]])
    return ["+uvm_set_config_string=", "+UVM_SET_CONFIG_STRING="][g.i(0, 1)] + ",".join(s)


def node(g, depth):
    n = {"name": g.pick(NAMES), "kids": []}
    if depth:
        for k in g.some(0, 3, lambda: node(g, depth - 1)):
            if k["name"] not in [x["name"] for x in n["kids"]]:
                n["kids"].append(k)
    return n


def strategy():
    return gen(lambda g: {
        "tree": node(g, 2), "d": g.i(0, 3), "args": g.perm(g.some(0, 5, lambda: verb(g)) + g.some(0, 4, lambda: actsev(g)) + g.some(0, 4, lambda: cfg(g))),
        "verb": g.some(0, 2, lambda: g.pick(sorted(VERBS) + ["150", "37"])), "quit": g.some(0, 2, lambda: [g.i(0, 20), g.pick(["", ",YES", ",NO"])]),
        "timeout": g.some(0, 2, lambda: [g.i(1, 2000) * 1000000, g.pick(["", ",YES", ",NO"])]), "test": g.some(0, 2, lambda: g.pick(["TopA", "TopB"])),
        "unused": g.some(0, 2, lambda: g.pick(["+other", "-x", "+uvm_set_verbosity", "+UVM_VERBOSITYX=1"]))}, 500)


def run(case):
    argv = list(case["unused"]) + list(case["args"]) + ["+UVM_VERBOSITY=" + v for v in case["verb"]] + \
        ["+UVM_MAX_QUIT_COUNT=%d%s" % tuple(q) for q in case["quit"]] + ["+UVM_TIMEOUT=%d%s" % tuple(q) for q in case["timeout"]] + \
        ["+UVM_TESTNAME=" + t for t in case["test"]]
    early = fresh_uvm(argv)
    from uvm import UVMComponent, UVMConfigDb, UVMRoot, UVMTest, UVMReportServer
    from uvm.base.uvm_object_globals import UVM_COUNT, UVM_DISPLAY, UVM_EXIT, UVM_LOG
    from cocotb.triggers import Timer
    import cocotb
    ACT = [(1, UVM_DISPLAY), (2, UVM_LOG), (4, UVM_COUNT), (8, UVM_EXIT)]
    sev_ov = []

    def act(a):
        return sum(c for b, c in ACT if a & b)
    base = 200
    if case["verb"]:
        v = case["verb"][0]
        base = VERBS[v] if v in VERBS else int(v)
        eq("MULTVERB" in early, len(case["verb"]) > 1, "warning about several +UVM_VERBOSITY")
    rep = Reports()
    real = rep.server.execute_report_message
    probe = []

    def execute(m, composed):
        if m.get_id() in IDS:
            probe.append(int(m.get_severity()))
            return
        real(m, composed)
    rep.server.execute_report_message = execute
    # ---- model
    st = {"settings": 0, "later": 0, "bad": 0, "overlap": 0}
    verbs, acts, sevs, cfgs, nbad, nverbbad, ncfgbad = [], [], [], [], 0, 0, 0
    for a in case["args"]:
        key, _, val = a.partition("=")
        s = val.split(",")
        key = key.lower()
        if key == "+uvm_set_verbosity":
            bad = False
            if len(s) not in (4, 5):
                nbad, bad = nbad + 1, True
            if len(s) > 2 and s[2] not in VERBS:
                nverbbad, bad = nverbbad + 1, True
            if not bad:
                verbs.append((s[0], s[1], VERBS[s[2]], s[3], int(s[4]) if len(s) > 4 else 0))
            st["bad"] += bad
        elif key in ("+uvm_set_action", "+uvm_set_severity"):
            ok = len(s) == 4 and s[2] in SEVS + ["_ALL_"] and s[3] in (dict(ACTS) if key[-1] == "n" else SEVS)
            if ok:
                (acts if key[-1] == "n" else sevs).append((s[0], s[1], range(4) if s[2] == "_ALL_" else [SEVS.index(s[2])], s[3]))
            else:
                nbad += 1
                st["bad"] += 1
        elif len(s) == 3:
            cfgs.append((s, key[-1] == "t"))
        else:
            ncfgbad += 1
    cfgs.sort(key=lambda c: not c[1])      # all integer settings are made before the string settings
    paths = {}

    def walk(n, path):
        paths[path] = n
        for k in n["kids"]:
            walk(k, path + "." + k["name"])
    walk(case["tree"], "uvm_test_top")
    dur = case["d"] * U + 4
    models, hist = {}, {}
    used = set()
    for p in sorted(paths, key=lambda x: x.count(".")):
        m = models[p] = M01.Model(models[p.rpartition(".")[0]].verb if "." in p else base)
        hist[p] = []                        # (phase key, seq, id, verbosity)
        for n, (pat, id_, v, ph, off) in enumerate(verbs):
            if not glob_match(pat, p):
                continue
            st["settings"] += 1
            if ph in ("", "build", "time") and off == 0:
                m.apply(["verb" if id_ == "_ALL_" else "idverb", 0, id_, v, 0, 0, 0])
            else:
                t = {"time": 0, "run": 0, "shutdown": dur}.get(ph, -1) if not (ph in FUNCS and off) else 0
                hist[p].append(((t + off, FUNCS.index(ph) if t < 0 else 0), n, id_, v))
                st["later"] += 1
        hist[p].sort(key=lambda h: (h[0], h[1]))
        hits = 0
        for n, (pat, id_, ss, a) in enumerate(acts):
            if glob_match(pat, p):
                used.add(("a", n))
                hits += 1
                st["settings"] += 1
                a = dict(ACTS)[a]
                if id_ == "_ALL_":
                    for x in ss:
                        m.apply(["sevact", x, 0, 0, a, 0, 0])
                elif len(ss) == 4:
                    m.apply(["idact", 0, id_, 0, a, 0, 0])
                else:
                    m.apply(["sidact", ss[0], id_, 0, a, 0, 0])
        for n, (pat, id_, ss, to) in enumerate(sevs):
            if glob_match(pat, p):
                used.add(("s", n))
                hits += 1
                st["settings"] += 1
                for x in ss:
                    m.apply(["sevov" if id_ == "_ALL_" else "sidov", x, id_, 0, 0, 0, SEVS.index(to)])
        st["overlap"] += hits + len(hist[p]) > 1
    nunused = len(acts) + len(sevs) - len(used)
    comps = {}

    def look(p, now):
        """Compare the settings of component p with the model at (time, function phase)."""
        m, c = models[p], comps[p]
        while hist[p] and hist[p][0][0] <= now:
            _, _, id_, v = hist[p].pop(0)
            m.apply(["verb" if id_ == "_ALL_" else "idverb", 0, id_, v, 0, 0, 0])
        eq(c.get_report_verbosity_level(), m.verb, "%s at %r: verbosity" % (p, now))
        for id_ in IDS:
            for s in range(4):
                what = "%s at %r, severity %d, id %s with %r" % (p, now, s, id_, argv)
                eq(c.get_report_verbosity_level(s, id_), m.verbosity(s, id_), "verbosity of " + what)
                if now[0] >= 0:
                    continue
                eq(c.get_report_action(s, id_), act(m.action(s, id_)), "action of " + what)
                if not m.ambiguous(s, id_):
                    del probe[:]
                    s2 = m.severity(s, id_)
                    c.uvm_report(s, id_, "probe", 0)
                    eq(probe, [s2] if m.action(s2, id_) else [], "issued severity of " + what)

    def kids(self):
        p = self.get_full_name()
        comps[p] = self
        for k in paths[p]["kids"]:
            Node(k["name"], self)

    class Mixin:
        def build_phase(self, phase):
            super().build_phase(phase)
            kids(self)
            p = self.get_full_name()
            look(p, (-1, -1))
            for f in ("f", "g"):
                got, want = [], []
                for (pat, fld, val), isint in cfgs:
                    if fld == f and glob_match(pat, p):
                        if isint:
                            b = {"'b": 2, "0b": 2, "'o": 8, "'d": 10, "'h": 16, "'x": 16, "0x": 16}.get(val[:2])
                            val = int(val[2:], b) if b and len(val) > 2 else int(val)
                        want = [val]
                UVMConfigDb.get(self, "", f, got)
                eq(got, want, "%s: field %s with %r" % (p, f, argv))

        def connect_phase(self, phase):
            look(self.get_full_name(), (-1, 0))

        def end_of_elaboration_phase(self, phase):
            look(self.get_full_name(), (-1, 1))

        def start_of_simulation_phase(self, phase):
            look(self.get_full_name(), (-1, 2))

    class Node(Mixin, UVMComponent):
        pass
    done = []

    class TopA(Mixin, UVMTest):
        def connect_phase(self, phase):
            super().connect_phase(phase)
            server = UVMReportServer.get_server()
            if case["quit"]:
                eq(server.get_max_quit_count(), case["quit"][0][0], "max quit count with %r" % argv)
            server.set_max_quit_count(77)
            eq(server.get_max_quit_count(), case["quit"][0][0] if case["quit"] and case["quit"][0][1] == ",NO" else 77, "max quit count set by the test")
            root = UVMRoot.get()
            if case["timeout"]:
                eq(root.phase_timeout, case["timeout"][0][0], "timeout with %r" % argv)
            root.set_timeout(12345)
            eq(root.phase_timeout, case["timeout"][0][0] if case["timeout"] and case["timeout"][0][1] == ",NO" else 12345, "timeout set by the test")

        async def run_phase(self, phase):
            phase.raise_objection(self)
            await Timer(1, "step")
            for k in range(5 * U):
                for p in paths:
                    look(p, (2 * k + 1, 9))
                await Timer(2, "step")
            done.append(self.get_type_name())
            phase.drop_objection(self)

        async def main_phase(self, phase):
            phase.raise_objection(self)
            await Timer(dur, "step")
            phase.drop_objection(self)

    class TopB(TopA):
        pass
    from uvm.macros.uvm_object_defines import uvm_component_utils
    uvm_component_utils(TopA)
    uvm_component_utils(TopB)
    if ncfgbad:     # an error during build: the run stops at the end of elaboration, or at the max quit count
        try:
            uvm_run(TopA)
            check(False, "a malformed +uvm_set_config setting did not stop the test: %r", argv)
        except Exception as e:
            if type(e).__name__ != "UVMFinishError":
                raise
        check(not done and rep.of(2, "UVM_CMDLINE_PROC"), "the test ran in spite of errors in %r", argv)
        return {"nontrivial": False, "stopped": 1}
    uvm_run(TopA)
    eq(done, [(case["test"] + ["TopA"])[0]], "test that ran")
    n = [len(rep.of(1, i)) for i in ("INVLCMDARGS", "INVLCMDVERB", "MULTTST", "MULTMAXQUIT", "MULTTIMOUT")] + [len(rep.errors())]
    eq(n, [nbad + nunused, nverbbad, int(len(case["test"]) > 1), int(len(case["quit"]) > 1), int(len(case["timeout"]) > 1), 0],
           "reports about the command line %r" % argv)
    return {"nontrivial": bool((st["later"] or st["bad"]) and st["overlap"]), **st}
