from util import *
import C01_config_db as C01

ID = "H02"
META = {
    "title": "Registered fields are configured automatically in the build phase",
    "statement": "For every component tree and history of configuration settings, after super().build_phase() every registered field of a component, inherited ones included, holds exactly the value the configuration database selects for its path and name at that time, as the same object handle for objects, and its initial value when nothing applies. Fields registered UVM_READONLY keep their value with a warning, and fields that are not registered are never touched. An agent's is_active follows the same rule.",
    "over": ["configurations", "histories"],
    "quant": "all component trees, class hierarchies with registered fields (int, string, object, read-only), settings by the root or any ancestor with glob scopes, re-set values and precedence ties",
    "why": "Automatic configuration is tested with a single setting; with several matching settings the order of application decides which value survives.",
    "files": ["src/uvm/base/uvm_component.py", "src/uvm/base/uvm_object.py", "src/uvm/macros/uvm_object_defines.py", "src/uvm/comps/uvm_agent.py"],
    "mech": [["UVMComponent.apply_config_settings", "src/uvm/base/uvm_component.py"], ["UVMObject.set_int_local / set_string_local / set_object_local", "src/uvm/base/uvm_object.py"], ["UVMAgent.build_phase", "src/uvm/comps/uvm_agent.py"]],
    "note": "Whole build phases of random trees; every field is compared with a precedence model. Field values match the declared kind; field names in settings are exact.",
}
RULE = "a field had two or more matching settings with different values, or a read-only or unregistered field had a matching setting"
N = (130, 12000)
ASSUMPTIONS = ["scope patterns start at the hierarchy root or with '*'", "regular-expression scopes not covered"]
NAMES = C01.NAMES
FIELDS = ["i1", "i2", "s1", "o1", "r1", "u1", "i11", "recording_detail", "is_active"]


def sets(g, rootctx):
    def one():
        root = rootctx or g.b(1, 3)
        f = g.pick(FIELDS[:4] + FIELDS)
        return [root, C01.abs_pattern(g) if root else C01.rel_pattern(g), f, g.i(0, 3)]
    return g.some(0, 4, one)


def node(g, depth):
    n = {"name": g.pick(NAMES), "cls": g.i(0, 4), "pre": sets(g, False), "post": sets(g, False), "kids": []}
    if depth:
        for k in g.some(0 if depth < 2 else 1, 3 if depth > 1 else 2, lambda: node(g, depth - 1)):
            if k["name"] not in [x["name"] for x in n["kids"]]:
                n["kids"].append(k)
    return n


def strategy():
    return gen(lambda g: {"before": sets(g, True), "tree": node(g, 3), "verb": g.b(1, 5)}, 700)


def run(case):
    from uvm import UVMConfigDb, UVMComponent, UVMObject, UVMAgent
    from uvm.base.uvm_object_globals import UVM_DEFAULT, UVM_READONLY, UVM_ACTIVE, UVM_PASSIVE
    from uvm.macros.uvm_object_defines import (uvm_component_utils, uvm_component_utils_begin, uvm_component_utils_end,
                                               uvm_field_int, uvm_field_string, uvm_field_object, uvm_object_utils)
    rep = Reports()

    class Obj(UVMObject):
        def __init__(self, name=""):
            super().__init__(name)
            self.tag = name
    uvm_object_utils(Obj)
    OBJ = [Obj("v%d" % i) for i in range(4)]

    def val(f, v):
        if f[0] == "s":
            return ["", "x", "yy", "1"][v]
        if f[0] == "o":
            return OBJ[v]
        if f == "is_active":
            return [UVM_PASSIVE, UVM_ACTIVE][v % 2]
        return [0, 5, 1 << 40, -3][v]
    INIT = {"i1": -1, "i2": -2, "s1": "init", "o1": None, "r1": -4, "u1": -5, "i11": -6}
    table = {}
    st = {"n": 0, "contested": 0, "kept": 0, "fields": 0, "applied": 0}

    def do(ops, comp, build):
        path = comp.get_full_name() if comp is not None else ""
        depth = len(path.split(".")) if path else 0
        for root, pat, f, v in ops:
            st["n"] += 1
            if root:
                UVMConfigDb.set(None, pat, f, val(f, v))
                table[("", pat, f)] = [val(f, v), 1000, st["n"]]
            else:
                full = path if pat == "" else path + "." + pat
                UVMConfigDb.set(comp, pat, f, val(f, v))
                table[(path, full, f)] = [val(f, v), 1000 - depth if build else 1000, st["n"]]

    def want(path, f):
        c = [e for (cp, pat, ff), e in table.items() if ff == f and glob_match(pat, path)]
        if len(set(repr(e[0]) for e in c)) > 1:
            st["contested"] += 1
        return max(c, key=lambda e: (e[1], e[2])) if c else None

    REG = {0: [], 1: ["i1", "s1", "r1"], 2: ["i1", "s1", "r1", "i2", "o1"], 3: ["i1", "i11", "o1"], 4: []}

    def mk_init(base):
        def init(self, name, parent):
            base.__init__(self, name, parent)
            for k, v in INIT.items():
                setattr(self, k, v)
            self.was = []
        return init

    def build_phase(self, phase):
        spec, cls = self.spec, self.spec["cls"]
        do(spec["pre"], self, True)
        old_rec = self.recording_detail
        rep.msgs.clear()
        (UVMAgent if cls == 4 else UVMComponent).build_phase(self, phase)
        path = self.get_full_name()
        ro = 0
        for f, d in INIT.items():
            w = want(path, f)
            st["fields"] += 1
            if f in REG[cls] and w is not None:
                if f == "r1":
                    st["kept"] += 1
                    ro += 1
                    eq(getattr(self, f), d, "%s.%s (read-only)" % (path, f))
                    continue
                st["applied"] += 1
                got = getattr(self, f)
                check(got is w[0] if f[0] == "o" else type(got) is type(w[0]) and got == w[0],
                      "%s.%s: got %r, expected %r", path, f, got, w[0])
            else:
                if w is not None:
                    st["kept"] += 1
                eq(getattr(self, f), d, "%s.%s (%s)" % (path, f, "not set" if f in REG[cls] else "not registered"))
        if REG[cls]:
            w = want(path, "recording_detail")
            eq(self.recording_detail, old_rec if w is None else w[0], path + ".recording_detail")
        if cls == 4:
            w = want(path, "is_active")
            eq(self.is_active, UVM_ACTIVE if w is None else w[0], path + ".is_active")
            eq(self.get_is_active(), self.is_active, path + ".get_is_active()")
        eq(len([m for m in rep.msgs if m[1] == "RDONLY"]) > 0, ro > 0, path + ": read-only warnings")
        check(not [m for m in rep.msgs if m[0] >= 1 and m[1] != "RDONLY"], "build of %s reported %r", path, rep.msgs[:3])
        for k in spec["kids"]:
            c = CLS[k["cls"]](k["name"], self)
            c.spec = k
        do(spec["post"], self, True)

    CLS = {}
    for i, base in [(0, UVMComponent), (1, UVMComponent), (3, UVMComponent), (4, UVMAgent)]:
        CLS[i] = type("H%d" % i, (base,), {"__init__": mk_init(base), "build_phase": build_phase})
    CLS[2] = type("H2", (CLS[1],), {"__init__": mk_init(CLS[1])})
    uvm_component_utils(CLS[0])
    uvm_component_utils(CLS[4])
    uvm_component_utils_begin(CLS[1])
    uvm_field_int("i1", UVM_DEFAULT)
    uvm_field_string("s1", UVM_DEFAULT)
    uvm_field_int("r1", UVM_DEFAULT | UVM_READONLY)
    uvm_component_utils_end(CLS[1])
    uvm_component_utils_begin(CLS[2])
    uvm_field_int("i2", UVM_DEFAULT)
    uvm_field_object("o1", UVM_DEFAULT)
    uvm_component_utils_end(CLS[2])
    uvm_component_utils_begin(CLS[3])
    uvm_field_int("i1", UVM_DEFAULT)
    uvm_field_int("i11", UVM_DEFAULT)
    uvm_field_object("o1", UVM_DEFAULT)
    uvm_component_utils_end(CLS[3])

    from uvm import UVMTest
    top = CLS[case["tree"]["cls"]]
    Top = type("TopTest", (top,), {"spec": case["tree"]})
    uvm_component_utils(Top)
    if case["verb"]:
        UVMComponent.print_config_matches = 1
    do(case["before"], None, False)
    uvm_run(Top)
    return {"nontrivial": bool(st["contested"] or st["kept"]), "fields": st["fields"], "applied": st["applied"],
            "contested": st["contested"], "kept": st["kept"]}
