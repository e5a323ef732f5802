from util import *

ID = "D01"
META = {
    "title": "Copy, clone and compare respect every registered field, flag and policy",
    "statement": "For every tree of objects with registered fields, clone() and copy() reproduce exactly the fields not marked UVM_NOCOPY, inherited fields included, deeply for objects (same handle for UVM_REFERENCE, None stays None), leave everything else and the source alone, and share no other object with it. compare() returns true exactly when all compared fields are equal under the comparer's type-check and policy settings and do_compare agrees; the comparer counts every difference, names its hierarchical path and both values, and reports at most show_max of them with its severity and verbosity.",
    "over": ["inputs"],
    "quant": "all class hierarchies, field kinds (int of any size, string, object, None), flag combinations, value trees, pairs of trees with any number of differences, user do_copy/do_compare hooks and comparer knobs",
    "why": "Tests compare and copy a few hand-written objects of one class; derived classes, nested differences, flags and knobs interact.",
    "files": ["src/uvm/base/uvm_object.py", "src/uvm/base/uvm_comparer.py", "src/uvm/macros/uvm_object_defines.py", "src/uvm/base/uvm_scope_stack.py"],
    "mech": [["UVMObject.copy / clone / compare", "src/uvm/base/uvm_object.py"], ["UVMComparer.compare_field / compare_object / print_msg", "src/uvm/base/uvm_comparer.py"], ["_m_uvm_field_automation (UVM_COPY, UVM_COMPARE)", "src/uvm/macros/uvm_object_defines.py"]],
    "note": "Random class hierarchies and value trees; copies and comparisons are checked against a structural model. Shared or cyclic object graphs are outside the property.",
}
RULE = "a nested object was copied or compared and the two trees differ in at least one field, or a flag excluded a differing field"
N = (400, 40000)
FLAGS = ["", "", "", "NOCOPY", "NOCOMPARE", "NOCOPY|NOCOMPARE", "REFERENCE|NOCOMPARE"]


def classes(g):
    out = []
    for i in range(4):
        fs = []
        for j in range(g.i(1, 3)):
            kind = g.pick(["int", "str", "obj", "obj"])
            flag = g.pick(FLAGS)
            if kind != "obj" and flag.startswith("REF"):
                flag = ""
            fs.append(["f%d%s" % (i, "xyz"[j]), kind, flag])
        out.append({"fields": fs, "base": g.pick([None] + list(range(i))) if i else None, "hook": g.b(1, 4)})
    return out


def all_fields(cl, i):
    c = cl[i]
    return (all_fields(cl, c["base"]) if c["base"] is not None else []) + c["fields"]


def hooks(cl, i):
    c = cl[i]
    return (hooks(cl, c["base"]) if c["base"] is not None else []) + (["h%d" % i] if c["hook"] else [])


def gint(g):
    v = g.bits(g.pick([1, 8, 32, 64, 100]))
    return -v if g.b(1, 6) else v


def value(g, cl, kind, depth):
    if g.b(1, 12) and kind != "obj":
        return None
    if kind == "int":
        return gint(g)
    if kind == "str":
        return g.pick(["", "a", "b", "ab", "a b", "%d", "12"])
    if depth <= 0 or g.b(1, 4):
        return None
    return tree(g, cl, depth - 1)


def tree(g, cl, depth):
    c = g.i(0, len(cl) - 1)
    v = {f[0]: value(g, cl, f[1], depth) for f in all_fields(cl, c)}
    for h in hooks(cl, c):
        v[h] = gint(g) & 0xFFFF
    return {"c": c, "n": g.pick(["o", "p", "q", ""]), "v": v}


def mutate(g, cl, t, depth=0):
    """A copy of t with one difference somewhere."""
    t = {"c": t["c"], "n": t["n"], "v": dict(t["v"])}
    keys = list(t["v"])
    k = g.pick(keys)
    old = t["v"][k]
    if isinstance(old, dict) and g.b(3, 4):
        t["v"][k] = mutate(g, cl, old, depth + 1)
        return t
    kind = {f[0]: f[1] for f in all_fields(cl, t["c"])}.get(k, "hook")
    t["v"][k] = (gint(g) & 0xFFFF) if kind == "hook" else value(g, cl, kind, 1)
    return t


def case_(g):
    cl = classes(g)
    a = tree(g, cl, 3)
    k = g.i(0, 5)
    b = a
    if k == 5:
        b = tree(g, cl, 2)
    else:
        for _ in range(k):
            b = mutate(g, cl, b)
    sev = g.i(0, 2)
    return {"cl": cl, "a": a, "b": b, "show": g.pick([1000, 1000, 1, 2, 0]), "type": g.b(2, 3), "ref": g.b(1, 6),
            "sev": sev, "hi": sev == 0 and g.b(1, 3), "same": g.b(1, 6),
            "fld": [[gint(g), g.i(1, 70), g.i(0, 70)] for _ in range(g.i(0, 3))]}


def strategy():
    return gen(case_, 500)


def run(case):
    from uvm.macros.uvm_object_defines import (uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int,
                                               uvm_field_string, uvm_field_object)
    from uvm import UVMObject, UVMComparer
    import uvm.base.uvm_object_globals as og
    rep = Reports()
    cl = case["cl"]
    K, ok_hook = [], [True]
    mk = {"int": uvm_field_int, "str": uvm_field_string, "obj": uvm_field_object}
    for i, c in enumerate(cl):
        base = UVMObject if c["base"] is None else K[c["base"]]

        def init(self, name="", _i=i, _b=base):
            _b.__init__(self, name)
            for f in cl[_i]["fields"]:
                setattr(self, f[0], {"int": 0, "str": "", "obj": None}[f[1]])
            if cl[_i]["hook"]:
                setattr(self, "h%d" % _i, 0)
        mem = {"__init__": init}
        if c["hook"]:
            h = "h%d" % i

            def do_copy(self, rhs, _b=base, _h=h):
                _b.do_copy(self, rhs)
                if hasattr(rhs, _h):
                    setattr(self, _h, getattr(rhs, _h))

            def do_compare(self, rhs, comparer, _b=base, _h=h):
                ok = bool(_b.do_compare(self, rhs, comparer))
                if not ok_hook[0]:
                    return 0
                if hasattr(rhs, _h):
                    # only the low 8 bits count
                    ok = bool(comparer.compare_field(_h, getattr(self, _h), getattr(rhs, _h), 8)) and ok
                return ok
            mem["do_copy"], mem["do_compare"] = do_copy, do_compare
        k = type("K%d" % i, (base,), mem)
        uvm_object_utils_begin(k)
        for f in c["fields"]:
            flag = og.UVM_DEFAULT
            for x in f[2].split("|"):
                if x:
                    flag |= getattr(og, "UVM_" + x)
            mk[f[1]](f[0], flag)
        uvm_object_utils_end(k)
        K.append(k)
    flags = {f[0]: f[2] for c in cl for f in c["fields"]}

    def build(t):
        o = K[t["c"]](t["n"])
        for k, v in t["v"].items():
            setattr(o, k, build(v) if isinstance(v, dict) else v)
        return o

    def objs(o, out):
        out.append(o)
        for k, v in vars(o).items():
            if isinstance(v, UVMObject) and k in flags:
                objs(v, out)
        return out

    DEF = {f[0]: {"int": 0, "str": "", "obj": None}[f[1]] for c in cl for f in c["fields"]}
    n = {"nested": 0, "excluded": 0, "diff": 0}

    def as_copied(t):
        """Tree expected after clone()."""
        v = {}
        for k, x in t["v"].items():
            f = flags.get(k, "")
            if "NOCOPY" in f:
                v[k] = DEF[k]
                if x != DEF[k]:
                    n["excluded"] += 1
            elif isinstance(x, dict) and "REFERENCE" not in f:
                n["nested"] += 1
                v[k] = as_copied(x)
            else:
                v[k] = x
        return {"c": t["c"], "n": t["n"], "v": v}

    def same(o, t, what):
        check(type(o) is K[t["c"]], "%s: type %r, expected K%d", what, type(o).__name__, t["c"])
        eq(o.get_name(), t["n"], what + " name")
        for k, v in t["v"].items():
            got = getattr(o, k)
            if isinstance(v, dict):
                check(got is not None, "%s.%s is None", what, k)
                same(got, v, what + "." + k)
            else:
                check(type(got) is type(v) and got == v, "%s.%s: got %r, expected %r", what, k, got, v)

    A, B = case["a"], case["b"]
    a, b = build(A), build(B)

    # clone
    c = a.clone()
    check(c is not a, "clone() returned the object itself")
    same(c, as_copied(A), "clone")
    same(a, A, "clone source")

    def walk_refs(o, p, what):
        for k in vars(o):
            if k in flags and "NOCOPY" not in flags[k] and isinstance(getattr(o, k), UVMObject):
                if "REFERENCE" in flags[k]:
                    check(getattr(p, k) is getattr(o, k), "%s: UVM_REFERENCE field %s is not the same handle", what, k)
                else:
                    check(getattr(p, k) is not getattr(o, k), "%s: object field %s is shared with the source", what, k)
                    walk_refs(getattr(o, k), getattr(p, k), what)
    walk_refs(a, c, "clone")

    # copy into an existing object of (possibly) another class: fields both have
    d = build(B)
    ftA = {f[0] for f in all_fields(cl, A["c"])} | set(hooks(cl, A["c"]))
    ftB = {f[0] for f in all_fields(cl, B["c"])} | set(hooks(cl, B["c"]))
    old = {k: getattr(d, k) for k in ftB}
    d.copy(a)
    cp = as_copied(A)
    for k in sorted(ftB):
        if k in ftA and "NOCOPY" not in flags.get(k, ""):
            v = cp["v"][k]
            got = getattr(d, k)
            if isinstance(v, dict):
                check(got is not None, "copy: field %s is None", k)
                same(got, v, "copy." + k)
            else:
                check(type(got) is type(v) and got == v, "copy.%s: got %r, expected %r", k, got, v)
        else:
            check(getattr(d, k) is old[k], "copy changed field %s that is not copied", k)
    eq(d.get_name(), B["n"], "name after copy")
    same(a, A, "copy source")
    rep.none_bad("from clone/copy")

    # compare
    values = {}         # path -> the two values that differ

    def shows(v, text):
        return any(x in text for x in ([v] if isinstance(v, str) else [str(v), "%x" % v, "%X" % v]))

    def diffs(x, y, path, out):
        """Paths of all differences."""
        if case["type"] and x["c"] != y["c"]:
            out.append(path)
        fx = all_fields(cl, x["c"])
        for f in fx:
            k = f[0]
            if k not in y["v"]:
                continue
            l, r = x["v"][k], y["v"][k]
            p = path + "." + k
            if "NOCOMPARE" in f[2]:
                if l != r:
                    n["excluded"] += 1
                continue
            if isinstance(l, dict) and isinstance(r, dict):
                if case["ref"]:
                    out.append(p)
                else:
                    n["nested"] += 1
                    diffs(l, r, p, out)
            elif type(l) is not type(r) or l != r:
                out.append(p)
                if type(l) is type(r) and not isinstance(l, dict):
                    values[p] = (l, r)
        for h in hooks(cl, x["c"]):
            if h in y["v"] and (x["v"][h] ^ y["v"][h]) & 0xFF:
                out.append(path + "." + h)
        return out

    cmpr = UVMComparer()
    cmpr.show_max = case["show"]
    cmpr.check_type = int(case["type"])
    cmpr.sev = case["sev"]
    cmpr.verbosity = og.UVM_HIGH if case["hi"] else og.UVM_LOW
    if case["ref"]:
        cmpr.policy = og.UVM_REFERENCE

    def compare(x, y, X, Y, what):
        rep.msgs.clear()
        values.clear()
        want = diffs(X, Y, X["n"] or "<object>", [])
        got = x.compare(y, cmpr)
        n["diff"] += len(want)
        check(bool(got) == (not want), "%s: compare returned %r, differences %r", what, got, want)
        if case["show"] >= 1000:
            eq(cmpr.result, len(want), what + ": miscompare count (%r)" % want)
            lines = cmpr.miscompares.split("\n")[:-1]
            eq(len(lines), len(want), what + ": lines of comparer.miscompares")
            eq(sorted(s.split(":")[0] for s in lines), sorted(want), what + ": miscompare paths")
            for s in lines:
                p, _, rest = s.partition(":")
                if p in values and want.count(p) == 1:
                    l, _, r = rest.partition("rhs =")
                    check(shows(values[p][0], l) and shows(values[p][1], r), "%s: miscompare line %r does not give the values %r", what, s, values[p])
        else:
            check(min(len(want), max(1, case["show"])) <= cmpr.result <= len(want),
                  "%s: comparer.result %d for %d differences, show_max %d", what, cmpr.result, len(want), case["show"])
        shown = 0 if case["hi"] else min(cmpr.result, case["show"])
        mis = [m for m in rep.msgs if m[1] == "MISCMP"]
        eq(len(mis), shown, what + ": number of reported miscompares")
        for m in mis:
            eq(m[0], case["sev"], what + ": severity of a miscompare report")
            check(any(w in m[2] for w in want), "%s: report %r names none of %r", what, m[2], want)
        check(len(rep.msgs) == len(mis), "%s: unexpected report %r", what, rep.msgs[:2])

    compare(a, b, A, B, "compare(a, b)")
    compare(b, a, B, A, "compare(b, a)")
    if not case["ref"]:
        compare(a, build(A), A, A, "compare of equal trees")
    if hooks(cl, A["c"]):
        # a do_compare that says no without using the comparer
        ok_hook[0] = False
        check(not a.compare(a, cmpr), "compare returned true although do_compare returned false")
        ok_hook[0] = True
    same(a, A, "compare lhs")
    same(b, B, "compare rhs")
    rep.msgs.clear()
    check(not a.compare(None, cmpr), "compare(None) returned true")
    compare(a, b, A, B, "compare after compare(None)")

    # direct field comparison: only the given number of bits counts
    for v, size, bit in case["fld"]:
        w = v ^ (1 << bit)
        one = UVMComparer()
        one.show_max = 0
        check(bool(one.compare_field("x", v, w, size)) == (bit >= size), "compare_field(%d, %d, size %d)", v, w, size)
        eq(one.result, int(bit < size), "compare_field result count")
    return {"nontrivial": bool(n["nested"] and (n["diff"] or n["excluded"])), "differences": n["diff"],
            "excluded": n["excluded"], "nested": n["nested"]}
