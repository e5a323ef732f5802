from util import *

ID = "C01"
META = {
    "title": "Configuration database returns the value UVM precedence selects",
    "statement": "For every component tree and every history of configuration settings, a lookup finds a value exactly when some setting's scope pattern matches the looked-up path and field name. The value found is that of the setting with the highest precedence: during the build phase settings made higher in the hierarchy win over lower ones, otherwise and among equals the last setting wins, and setting the same context, pattern and field again replaces the earlier value.",
    "over": ["histories", "configurations"],
    "quant": "all component trees, glob scope patterns, set contexts (root or any component), phases of the set and of the get, and value types",
    "why": "Tests set one or two values; which setting wins depends on the relative position of contexts, the phase, the order, and pattern overlap, a combination space the tests hardly touch.",
    "files": ["src/uvm/base/uvm_config_db.py", "src/uvm/base/uvm_resource.py", "src/uvm/base/uvm_globals.py"],
    "mech": [["UVMConfigDb.set / get / exists", "src/uvm/base/uvm_config_db.py"], ["UVMResourcePool.get_highest_precedence", "src/uvm/base/uvm_resource.py"]],
    "note": "Whole UVM runs over random trees with random sets and gets in build, connect and run phases, compared with a precedence model.",
}
RULE = "at least one lookup had two or more matching settings with different values"
N = (120, 12000)
ASSUMPTIONS = ["scope patterns start at the hierarchy root or with '*'", "regular-expression scopes (/.../) not covered"]
NAMES = ["a", "ab", "b", "u[0]", "u[1]"]
FIELDS = ["f", "g", "bf"]      # "a" + "bf" and "ab" + "f" read the same
PICK = ["f", "f", "f", "g", "bf", "bf"]


def rel_pattern(g, wild=True):
    p = ".".join(g.some(0, 3, lambda: g.pick(NAMES)))
    if not wild:
        return p
    kind = g.i(0, 5)
    if kind == 0 or p == "":
        return g.pick(["*", "", "a", "a*", "*b", p])
    if kind == 1:
        return p + g.pick(["*", ".*"])
    if kind == 2:
        k = g.i(0, len(p))
        return p[:k] + "*" + p[g.i(k, len(p)):]
    if kind == 3:
        k = g.i(0, len(p) - 1)
        return p[:k] + "?" + p[k + 1:]
    return p


def abs_pattern(g):
    r = rel_pattern(g)
    return g.pick(["*", "uvm_test_top*", "*" + r, "uvm_test_top." + r, "uvm_test_top." + r, "uvm_test_top"])


def value(g):
    return g.pick([g.i(0, 9), g.pick(["s0", "s1", ""]), g.b(), [g.i(0, 2)], g.i(0, 9), None])


def ops(g, rootctx=False):
    def one():
        k = g.i(0, 5)
        f = g.pick(PICK)
        if k <= 2 or rootctx:
            root = rootctx or g.b(1, 3)
            return ["set", root, abs_pattern(g) if root else rel_pattern(g), f, value(g)]
        if k == 3:
            return ["get", rel_pattern(g, False), f]
        return ["read", g.b(), f]
    return g.some(0, 4, one)


def node(g, depth):
    n = {"name": g.pick(NAMES), "pre": ops(g), "post": ops(g), "connect": ops(g) if g.b() else [],
         "run": ops(g) if g.b() else [], "kids": []}
    if depth:
        for k in g.some(0 if depth < 2 else 1, 3 if depth > 1 else 2, lambda: node(g, depth - 1)):
            if k["name"] not in [x["name"] for x in n["kids"]]:
                n["kids"].append(k)
    return n


def strategy():
    return gen(lambda g: {"before": ops(g, True), "tree": node(g, 3), "trace": g.b(1, 4)}, 700)


def same(got, want):
    """equal values of the same type; the very same object where it could change later"""
    return type(got) is type(want) and got == want and (not isinstance(want, list) or got is want)


def run(case):
    from uvm import UVMConfigDb, UVMComponent
    rep = Reports()
    if case["trace"]:
        from uvm.base.uvm_config_db import UVMConfigDbOptions
        UVMConfigDbOptions.turn_on_tracing()
    table = {}          # (context path, full pattern, field) -> [value, precedence, stamp]
    cnt = {"stamp": 0, "reads": 0, "found": 0, "contested": 0}
    seen_paths = []

    def m_set(cpath, depth, build, inst, field, val):
        full = cpath if inst == "" else (inst if cpath == "" else cpath + "." + inst)
        cnt["stamp"] += 1
        table[(cpath, full, field)] = [val, 1000 - depth if build else 1000, cnt["stamp"]]

    def m_get(scope, field):
        c = [e for (cp, pat, f), e in table.items() if f == field and glob_match(pat, scope)]
        if len(set(repr(e[0]) for e in c)) > 1:
            cnt["contested"] += 1
        if not c:
            return None
        return max(c, key=lambda e: (e[1], e[2]))

    def verify(cntxt, inst, scope, field, what):
        want = m_get(scope, field)
        got = ["sentinel"]
        ok = UVMConfigDb.get(cntxt, inst, field, got)
        cnt["reads"] += 1
        if want is None:
            check(not ok, "%s: get(%r, %r) found %r but nothing was set there", what, scope, field, got[1:])
            eq(got, ["sentinel"], "output argument of a failed get(%r, %r)" % (scope, field))
        else:
            cnt["found"] += 1
            check(ok, "%s: get(%r, %r) found nothing, expected %r", what, scope, field, want[0])
            check(len(got) == 2 and same(got[1], want[0]), "%s: get(%r, %r): got %r, expected %r%s", what, scope, field, got[1:], want[0], " (another object)" if got[1:] == [want[0]] else "")
        eq(bool(UVMConfigDb.exists(cntxt, inst, field)), want is not None, "%s: exists(%r, %r)" % (what, scope, field))

    def do(ops, comp, build, what):
        path = comp.get_full_name() if comp is not None else ""
        depth = len(path.split(".")) if path else 0
        for o in ops:
            if o[0] == "set":
                if o[1]:
                    # root context: precedence of the hierarchy root
                    UVMConfigDb.set(None, o[2], o[3], o[4])
                    m_set("", 0, build, o[2], o[3], o[4])
                else:
                    UVMConfigDb.set(comp, o[2], o[3], o[4])
                    m_set(path, depth, build, o[2], o[3], o[4])
            elif comp is None:
                continue
            elif o[0] == "get":
                scope = path if o[1] == "" else path + "." + o[1]
                verify(comp, o[1], scope, o[2], what)
            else:
                verify(None if o[1] else comp, path if o[1] else "", path, o[2], what)

    def make(spec, is_top):
        def build_phase(self, phase):
            do(spec["pre"], self, True, "build " + self.get_full_name())
            for k in spec["kids"]:
                self.kids.append(k["cls"](k["name"], self))
            do(spec["post"], self, True, "build " + self.get_full_name())
            seen_paths.append(self)

        def connect_phase(self, phase):
            do(spec["connect"], self, False, "connect " + self.get_full_name())

        async def run_phase(self, phase):
            do(spec["run"], self, False, "run " + self.get_full_name())

        def init(self, name="", parent=None):
            UVMComponent.__init__(self, name, parent)
            self.kids = []
        n = 0
        for k in spec["kids"]:
            make(k, False)
        cntname = "VcTop" if is_top else "Vc%d" % len(classes)
        classes.append(cntname)
        spec["cls"] = comp_class(cntname, {"__init__": init, "build_phase": build_phase,
                                           "connect_phase": connect_phase, "run_phase": run_phase})
    classes = []
    tree = case["tree"]
    make(tree, True)
    do(case["before"], None, False, "before run_test")
    uvm_run(tree["cls"])
    for c in seen_paths:
        for f in FIELDS:
            verify(c, "", c.get_full_name(), f, "final")
            verify(None, c.get_full_name(), c.get_full_name(), f, "final(root)")
    return {"nontrivial": cnt["contested"] > 0, "reads": cnt["reads"], "found": cnt["found"],
            "contested": cnt["contested"], "components": len(seen_paths)}
