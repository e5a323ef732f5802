from util import *

ID = "D03"
META = {
    "title": "Printing shows every printable field once, nested and with its value",
    "statement": "For every object or component tree and printer knobs, printing produces exactly one row per printed item in order: the object, for components each print-enabled child, the registered fields that are not UVM_NOPRINT and not None (inherited first), and what do_print prints, with the right name, nesting level, type, size and value in the requested radix. The depth knob cuts nesting, references and cycles print the handle only, and the table, tree and line printers render these rows completely with aligned columns or braces. Printing leaves no trace: printing again gives the same text.",
    "over": ["inputs"],
    "quant": "all object trees with class hierarchies, flags, radices, do_print calls (fields, strings, reals, times, arrays of fields or objects), component trees, cycles, and knob settings of the three printers",
    "why": "Tests print one or two items at top level; nesting, arrays and knobs share one scope stack whose corruption shows only in combinations.",
    "files": ["src/uvm/base/uvm_printer.py", "src/uvm/base/uvm_misc.py", "src/uvm/base/uvm_object.py", "src/uvm/macros/uvm_object_defines.py"],
    "mech": [["UVMPrinter.print_* / UVMTablePrinter.emit / UVMTreePrinter.emit", "src/uvm/base/uvm_printer.py"], ["uvm_bitstream_to_string / num_with_radix", "src/uvm/base/uvm_misc.py"], ["UVMObject.sprint", "src/uvm/base/uvm_object.py"]],
    "note": "Rows are predicted by a reference walk and compared with the rows handed to format_row and with the text of all three printers.",
}
RULE = "three or more nesting levels, or an array of objects, or a depth limit that cut something"
N = (300, 30000)
RAD = ["NORADIX", "HEX", "DEC", "BIN", "OCT", "UNSIGNED"]
NAMES = ["a", "b", "ab", "u1"]


def ival(g):
    v = g.bits(31)
    return -v if g.b(1, 5) else v


def tree(g, depth, comp):
    t = {"comp": comp, "v": [], "ops": [], "kids": [], "en": not g.b(1, 6)}
    for j in range(g.i(0, 4)):
        kind = g.pick(["int", "int", "str", "obj", "obj", "none", "up"])
        if kind == "obj" and depth <= 0:
            kind = "int"
        flag = g.pick(["", "", "", "NOPRINT"] + (["REFERENCE"] if kind in ("obj", "up") else []))
        v = ival(g) if kind == "int" else g.pick(["", "s", "x y", "@z", "-"]) if kind == "str" else \
            tree(g, depth - 1, False) if kind == "obj" else None
        t["v"].append([kind, flag, g.pick(RAD), v, g.b(1, 3)])
    for _ in range(g.i(0, 3) if g.b() else 0):
        t["ops"].append(op(g, depth))
    if comp and depth > 0:
        t["kids"] = [tree(g, depth - 1, True) for _ in range(g.i(0, 3))]
    return t


def op(g, depth, inarr=False):
    k = g.i(0, 8 if depth > 0 else 6)
    n = g.pick(["p", "q", "rr"])
    if k <= 1:
        return ["fint" if k else "field", n, ival(g), g.pick([32, 32, 48]), g.pick(RAD)]
    if k == 2:
        return ["str", n, g.pick(["", "w", "a b"])]
    if k == 3:
        return ["real", n, g.pick([0.5, -1.25, 3.0])]
    if k == 4:
        return ["time", n, g.bits(20)]
    if k == 5:
        return ["gen", n, "mytype", g.i(0, 9), g.pick(["v", "w w"])]
    if k == 6:
        return ["null", n]
    if k == 7 or inarr:
        return ["obj", n, tree(g, depth - 1, False)]
    m = g.i(0, 3)
    return ["arr", n, [op(g, depth - 1, True) for _ in range(m)], [g.pick([-1, m, 0, m - 1]), g.pick([-1, m, 5, m + 3])] if g.b() else None]


def case_(g):
    return {"t": tree(g, 3, g.b(1, 3)), "depth": g.pick([-1, -1, 0, 1, 2, 3]), "full": g.b(1, 4), "root": g.b(1, 6),
            "ref": not g.b(1, 5), "radix": g.pick(RAD[1:]), "show": not g.b(1, 5), "id": not g.b(1, 8),
            "type": g.i(0, 2), "size": g.i(0, 2), "ind": g.pick([2, 2, 4, 1]), "hdr": not g.b(1, 6)}


def strategy():
    return gen(case_, 500)


def run(case):
    from uvm.macros.uvm_object_defines import (uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int,
                                               uvm_field_string, uvm_field_object, uvm_component_utils_begin,
                                               uvm_component_utils_end)
    from uvm import UVMObject, UVMComponent
    from uvm.base.uvm_printer import UVMTablePrinter, UVMTreePrinter, UVMLinePrinter
    import uvm.base.uvm_object_globals as og
    rep = Reports()
    mk = {"int": uvm_field_int, "str": uvm_field_string, "obj": uvm_field_object, "none": uvm_field_object,
          "up": uvm_field_object}
    cnt = {"cls": 0}

    def build(t, up, name, parent=None):
        """One class per object: the fields marked 'base' are declared in a base class."""
        cnt["cls"] += 1
        i = cnt["cls"]
        B = UVMComponent if t["comp"] else UVMObject

        def do_print(self, printer):
            for o in t["ops"]:
                do_op(self, printer, o, None)
        K0 = type("B%d" % i, (B,), {})
        K1 = type("K%d" % i, (K0,), {"do_print": do_print})
        beg, end = ((uvm_component_utils_begin, uvm_component_utils_end) if t["comp"]
                    else (uvm_object_utils_begin, uvm_object_utils_end))
        for K, isb in ((K0, True), (K1, False)):
            beg(K)
            for j, f in enumerate(t["v"]):
                if f[4] == isb:
                    flag = og.UVM_DEFAULT
                    if f[1]:
                        flag |= getattr(og, "UVM_" + f[1])
                    if f[0] == "int":
                        flag |= getattr(og, "UVM_" + f[2])
                    mk[f[0]]("f%d" % j, flag)
            end(K)
        o = K1(name, parent) if t["comp"] else K1(name)
        t["o"] = o
        for j, f in enumerate(t["v"]):
            v = build(f[3], o, "n%d" % i) if f[0] == "obj" else up if f[0] == "up" else f[3]
            setattr(o, "f%d" % j, v)
        for o2 in t["ops"]:
            build_op(o2, o)
        if t["comp"]:
            o.print_enabled = t["en"]
            for j, k in enumerate(t["kids"]):
                build(k, o, NAMES[j], o)
        return o

    def build_op(o, up):
        if o[0] == "obj":
            build(o[2], up, "n")
        elif o[0] == "arr":
            for x in o[2]:
                build_op(x, up)

    def do_op(self, p, o, name):
        n = o[1] if name is None else name
        if o[0] == "field":
            p.print_field(n, o[2], o[3], getattr(og, "UVM_" + o[4]))
        elif o[0] == "fint":
            p.print_field_int(n, o[2], o[3], getattr(og, "UVM_" + o[4]))
        elif o[0] == "str":
            p.print_string(n, o[2])
        elif o[0] == "real":
            p.print_real(n, o[2])
        elif o[0] == "time":
            p.print_time(n, o[2])
        elif o[0] == "gen":
            p.print_generic(n, o[2], o[3], o[4])
        elif o[0] == "null":
            p.print_object(n, None)
        elif o[0] == "obj":
            p.print_object(n, o[2]["o"])
        else:
            p.print_array_header(n, len(o[2]), "da(x)")
            for i, x in enumerate(o[2]):
                do_op(self, p, x, "[%d]" % i)
            if o[3] is not None:
                # the elements left out
                p.print_array_range(*o[3])
            p.print_array_footer(len(o[2]))

    top = build(case["t"], None, "top")

    # reference walk
    PRE = {"DEC": "'d", "BIN": "'b", "OCT": "'o", "HEX": "'h", "UNSIGNED": "'d"}
    st = {"cut": 0, "deep": 0, "arr": 0}

    def num(v, size, radix):
        if radix == "NORADIX":
            radix = case["radix"]
        if radix == "DEC" and v < 0:
            return str(v)
        v &= (1 << size) - 1
        fmt = {"DEC": "%d", "UNSIGNED": "%d", "HEX": "%X", "OCT": "%o"}.get(radix)
        s = bin(v)[2:] if fmt is None else fmt % v
        return (PRE[radix] if case["show"] else "") + s
    rows = []

    def row(scope, name, type_, size, val):
        full = ".".join(scope + [name])
        full = full.replace(".[", "[", len(scope) if not name.startswith("[") else full.count(".[") - 1)
        if not scope and case["root"]:
            shown = full
        else:
            shown = full if case["full"] and name != "..." else name
        rows.append([len(scope), shown, type_, str(size), val])
        st["deep"] = max(st["deep"], len(scope))

    def obj_row(scope, name, o):
        val = "<null>" if o is None else "@%d" % o.get_inst_id()
        row(scope, name, "object" if o is None else o.get_type_name(), "-", val if case["ref"] else "-")

    def w_op(scope, o, name, active):
        n = o[1] if name is None else name
        if o[0] in ("field", "fint"):
            row(scope, n, "integral", o[3], num(o[2], o[3], o[4]))
        elif o[0] == "str":
            row(scope, n, "string", len(o[2]), o[2] or '""')
        elif o[0] == "real":
            row(scope, n, "real", 64, str(o[2]))
        elif o[0] == "time":
            row(scope, n, "time", 64, str(o[2]))
        elif o[0] == "gen":
            row(scope, n, o[2], o[3], o[4])
        elif o[0] == "null":
            obj_row(scope, n, None)
        elif o[0] == "obj":
            w_obj(scope, n, o[2], active)
            st["arr"] += name is not None
        else:
            row(scope, n, "da(x)", len(o[2]), "-")
            for i, x in enumerate(o[2]):
                w_op(scope + [n], x, "[%d]" % i, active)
            if o[3] is not None and o[3] != [-1, -1]:
                lo, hi = [o[3][1 - j] if x == -1 else x for j, x in enumerate(o[3])]
                if lo <= hi:
                    row(scope + [n], "...", "...", "...", "...")

    def w_obj(scope, name, t, active):
        obj_row(scope, name, t["o"])
        if not (case["depth"] == -1 or case["depth"] > len(scope)):
            st["cut"] += 1
            return
        active = active + [t["o"]]
        inner = scope + [name]
        for j, k in enumerate(t["kids"]):
            if k["en"]:
                w_obj(inner, NAMES[j], k, active)
        for isb in (True, False):
            for j, f in enumerate(t["v"]):
                if f[4] != isb or "NOPRINT" in f[1]:
                    continue
                o = getattr(t["o"], "f%d" % j)
                n = "f%d" % j
                if f[0] == "int":
                    row(inner, n, "integral", 32, num(f[3], 32, f[2]))
                elif f[0] == "str":
                    row(inner, n, "string", len(f[3]), f[3] or '""')
                elif o is None:
                    pass
                elif "REFERENCE" in f[1] or o in active:
                    obj_row(inner, n, o)
                else:
                    w_obj(inner, n, f[3], active)
        for o in t["ops"]:
            w_op(inner, o, None, active)
    w_obj([], "top", case["t"], [])

    def knobs(p):
        k = p.knobs
        k.depth, k.full_name, k.show_root, k.reference = case["depth"], case["full"], case["root"], case["ref"]
        k.default_radix, k.show_radix = getattr(og, "UVM_" + case["radix"]), case["show"]
        k.identifier, k.indent = case["id"], case["ind"]
        return p

    class Rows(UVMTablePrinter):
        def format_row(self, r):
            got.append([r.level, r.name, r.type_name, r.size, r.val])
            return "row"
    got = []
    rp = knobs(Rows())
    for again in range(2):
        got.clear()
        top.sprint(rp)
        for a, b in zip(got, rows):
            eq(a, b, "printed row (level, name, type, size, value)")
        eq(len(got), len(rows), "number of printed rows")

    tp = knobs(UVMTablePrinter())
    tp.knobs.type_name, tp.knobs.size, tp.knobs.header = case["type"] != 1, case["size"] != 1, case["hdr"]
    text = top.sprint(tp)
    eq(top.sprint(tp), text, "text of the second print")
    lines = [x for x in text.split("\n") if x.strip() and set(x) != {"-"}]
    cols = []
    if case["hdr"]:
        h = lines.pop(0)
        for want, on in (("Name", tp.knobs.identifier), ("Type", tp.knobs.type_name), ("Size", tp.knobs.size), ("Value", True)):
            if on:
                check(want in h, "table header without %s: %r", want, h)
                cols.append(h.index(want))
    eq(len(lines), len(rows), "rows in the table")
    for ln, r in zip(lines, rows):
        cells = []
        if case["id"]:
            cells.append(r[1])
        if tp.knobs.type_name:
            cells.append(r[2])
        if tp.knobs.size:
            cells.append(r[3])
        cells.append(r[4])
        eq(ln.split(), " ".join(cells).split(), "table line")
        if case["hdr"]:
            ends = cols[1:] + [len(ln) + 1]
            for i, c in enumerate(cells):
                part = ln[cols[i]:ends[i]]
                if i == 0 and case["id"]:
                    check(part.startswith(" " * (case["ind"] * r[0]) + c), "indentation of %r at level %d", ln, r[0])
                eq(part.strip(), c.strip(), "cell under the column header in %r" % ln)

    for cls, nl in ((UVMTreePrinter, True), (UVMLinePrinter, False)):
        p = knobs(cls())
        if not nl:
            p.knobs.indent = 0
        p.knobs.type_name = case["type"] == 2
        p.knobs.size = case["size"] == 2
        text = top.sprint(p)
        eq(top.sprint(p), text, cls.__name__ + " text of the second print")
        out = []
        for i, r in enumerate(rows):
            s = ""
            if case["id"]:
                s += r[1] + (": " if r[1] != "..." else "")
            if r[4][0] == "@":
                s += "(" + r[2] + r[4] + ") "
            elif case["type"] == 2:
                s += "(" + r[2] + ") "
            if case["size"] == 2:
                s += "(" + r[3] + ") "
            nxt = rows[i + 1][0] if i + 1 < len(rows) else 0
            ind = " " * (case["ind"] * r[0])
            if nxt > r[0] and i + 1 < len(rows):
                out.append((ind, s + "{"))
                continue
            out.append((ind, s + r[4]))
            for lv in range(r[0] - 1, nxt - 1, -1):
                out.append((" " * (case["ind"] * lv), "}"))
        if nl:
            eq([x.rstrip() for x in text.rstrip("\n").split("\n")], [(a + b if case["id"] or b == "}" else b).rstrip() for a, b in out], "tree text")
        else:
            eq(text.split(), " ".join(b for a, b in out).split(), "line text")
            check("\n" not in text.rstrip("\n"), "line printer text has several lines")
    rep.none_bad("from printing")
    return {"nontrivial": st["deep"] >= 3 or st["arr"] > 0 or st["cut"] > 0, "rows": len(rows)}
