from util import *

ID = "H01"
META = {
    "title": "The component hierarchy is a consistent tree; lookups and finds are exact",
    "statement": "For every component tree, each component has its own name, the full name joining the names from the top, its depth and its parent, and its children are listed, iterated and found by name in creation order, each once. lookup returns exactly the component at a relative or absolute path, or None with a warning. find and find_all return exactly the components below the start whose full name matches the glob. A second child of the same name and a renaming are refused without damage, and printing the topology shows every component once, below its parent.",
    "over": ["inputs", "histories"],
    "quant": "all trees and creation orders with repeated and similar names, all lookups and glob finds from all components, and duplicate or renaming attempts",
    "why": "Unit tests build two or three components; ambiguity of similar names and interleaved traversals need larger trees.",
    "files": ["src/uvm/base/uvm_component.py", "src/uvm/base/uvm_root.py", "src/uvm/base/uvm_printer.py"],
    "mech": [["UVMComponent.__init__, lookup, get_first_child, get_next_child, get_depth", "src/uvm/base/uvm_component.py"], ["UVMRoot.find / find_all / print_topology", "src/uvm/base/uvm_root.py"]],
    "note": "Random trees and queries against a plain tree.",
}
RULE = "the tree has five or more components and a path or glob query was answered"
N = (250, 25000)
ASSUMPTIONS = ["component names contain no dots or wildcards"]
NAMES = ["a", "b", "ab", "a[0]", "a[1]", "env_1", "x"]


def query(g):
    k = g.i(0, 6)
    if k <= 1:
        return ["lookup", g.i(0, 11), g.i(0, 11), g.pick(["rel", "abs", "abs"]), g.some(0, 2, lambda: g.pick(NAMES))]
    if k <= 3:
        return ["find", g.i(0, 11), g.i(0, 11), g.pick(["exact", "suffix*", "*mid*", "?", "*", "name*"]), g.i(0, 9)]
    if k == 4:
        return ["dup", g.i(0, 11), g.pick(["root", "child"])]
    if k == 5:
        return ["rename", g.i(0, 11), g.pick(NAMES)]
    return ["print", g.i(0, 11), int(g.b(1, 3))]


def strategy():
    return gen(lambda g: {"tree": [[g.i(-1, i - 1) if g.b(1, 3) else max(-1, i - 1 - g.i(0, 2)), g.pick(NAMES), g.i(0, 2)] for i in range(g.i(2, 12))],
                          "queries": g.some(2, 10, lambda: query(g))}, 300)


def run(case):
    from uvm import UVMComponent, uvm_component_utils
    from uvm.base.uvm_coreservice import UVMCoreService
    reps = Reports()
    top = UVMCoreService.get().get_root()

    class HComp(UVMComponent):
        pass
    uvm_component_utils(HComp)
    comps, parent, name = [], [], []
    st = {"comps": 0, "answered": 0}

    def make(n, p, how):
        if how == 0:
            return HComp(n, p)
        if how == 1:
            return HComp.type_id.create(n, p)
        return (p or top).create_component("HComp", n)
    for p, n, how in case["tree"]:
        if any(q == p and m == n for q, m in zip(parent, name)):
            continue
        if p >= len(comps):
            p = len(comps) - 1
            if any(q == p and m == n for q, m in zip(parent, name)):
                continue
        comps.append(make(n, comps[p] if p >= 0 else None, how))
        parent.append(p)
        name.append(n)
    N_ = len(comps)
    st["comps"] = N_
    full = []
    for i in range(N_):
        full.append((full[parent[i]] + "." if parent[i] >= 0 else "") + name[i])
    kids = {i: [j for j in range(N_) if parent[j] == i] for i in range(-1, N_)}

    def tree_ok(what):
        for i, c in enumerate(comps):
            eq(c.get_name(), name[i], what + ": name")
            eq(c.get_full_name(), full[i], what + ": full name")
            eq(c.get_depth(), full[i].count(".") + 1, what + ": depth of %s" % full[i])
            check(c.get_parent() is (comps[parent[i]] if parent[i] >= 0 else top), "%s: wrong parent of %s", what, full[i])
        for i in range(-1, N_):
            c = comps[i] if i >= 0 else top
            want = [comps[j] for j in kids[i]]
            got = []
            c.get_children(got)
            eq(got, want, what + ": get_children of %r" % c.get_full_name())
            eq(c.get_num_children(), len(want), what + ": number of children")
            got, k = [], c.get_first_child()
            while k is not None:
                got.append(k)
                sub = k.get_first_child()       # a nested traversal of another component
                while sub is not None:
                    sub = k.get_next_child()
                k = c.get_next_child()
            eq(got, want, what + ": iteration over the children")
            for n in NAMES + ["", "nope"]:
                w = [comps[j] for j in kids[i] if name[j] == n]
                eq(bool(c.has_child(n)), bool(w), what + ": has_child(%r)" % n)
                check(c.get_child(n) is (w[0] if w else None), "%s: get_child(%r) of %r", what, n, c.get_full_name())

    def resolve(i, parts):
        for p in parts:
            nx = [j for j in kids[i] if name[j] == p]
            if not nx:
                return None
            i = nx[0]
        return i
    tree_ok("after construction")
    reps.none_bad("while the tree was built")
    for o in case["queries"]:
        reps.msgs.clear()
        i = o[1] % N_
        if o[0] == "lookup":
            _, _, t, form, extra = o
            t %= N_
            if form == "abs":
                parts = full[t].split(".") + extra
                r = comps[i].lookup("." + ".".join(parts))
                w = resolve(-1, parts)
            else:
                if full[t].startswith(full[i] + "."):
                    parts = full[t][len(full[i]) + 1:].split(".") + extra
                else:
                    parts = extra or [name[t]]
                r = comps[i].lookup(".".join(parts))
                w = resolve(i, parts)
            check(r is (comps[w] if w is not None else None), "lookup of %r (%s) from %s gave %r", parts, form, full[i], r and r.get_full_name())
            eq(len(reps.of(1, "Lookup Error")), int(w is None), "lookup warnings")
            st["answered"] += w is not None
        elif o[0] == "find":
            _, _, t, form, cut = o
            t %= N_
            s = full[t]
            cut = cut % (len(s) + 1)
            pat = {"exact": s, "suffix*": s[:cut] + "*", "*mid*": "*" + s[cut // 2:cut] + "*", "?": s[:max(cut - 1, 0)] + "?" + s[max(cut, 1):],
                   "*": "*" + s[cut:], "name*": s[:cut // 2] + "*" + s[cut:]}[form]
            start = i if cut % 2 else -1
            below = [j for j in range(N_) if start < 0 or j == start or full[j].startswith(full[start] + ".")]
            want = [j for j in below if glob_match(pat, full[j])]
            got = []
            if start < 0:
                top.find_all(pat, got)
            else:
                top.find_all(pat, got, comps[start])
            eq(sorted(c.get_full_name() for c in got), sorted(full[j] for j in want), "find_all(%r) from %s" % (pat, full[start] if start >= 0 else "top"))
            check(all(c in comps for c in got) and len(set(map(id, got))) == len(got), "find_all returned a component twice or a foreign one")
            everything = [j for j in range(N_) if glob_match(pat, full[j])]
            r = top.find(pat)
            check((r is None and not everything) or any(r is comps[j] for j in everything), "find(%r) gave %r", pat, r and r.get_full_name())
            eq(len(reps.of(1, "MMATCH")), int(len(everything) > 1), "warnings about several matches")
            eq(len(reps.of(1, "CMPNFD")), int(not everything), "warnings about no match")
            st["answered"] += bool(want)
        elif o[0] == "dup":
            p = parent[i]
            try:
                HComp(name[i], comps[p] if p >= 0 else None)
                refused = bool(reps.of(3, "CLDEXT"))
            except Exception:
                refused = True
            check(refused and reps.of(3, "CLDEXT"), "a second child %s was accepted: %r", full[i], reps.msgs)
            tree_ok("after a refused duplicate of %s" % full[i])
        elif o[0] == "rename":
            comps[i].set_name(o[2])
            eq(len(reps.of(2, "INVSTNM")), 1, "renaming reports")
            tree_ok("after a refused renaming of %s" % full[i])
        else:
            hide = i if o[2] else None
            if hide is not None:
                comps[hide].print_enabled = False
            top.print_topology()
            text = [m[2] for m in reps.msgs if m[1] == "UVMTOP"]
            eq(len(text), 1, "topology reports")
            rows = []
            for line in text[0].split("\n"):
                f = line.split()
                if len(f) >= 2 and f[1] == "HComp":
                    rows.append((len(line) - len(line.lstrip()), f[0]))
            want = []

            def walk(j):
                if j == hide:
                    return
                want.append((2 * full[j].count("."), name[j]))
                for k in kids[j]:
                    walk(k)
            for j in kids[-1]:
                walk(j)
            eq(rows, want, "printed topology rows (indentation, name)")
            if hide is not None:
                comps[hide].print_enabled = True
    return {"nontrivial": N_ >= 5 and st["answered"] > 0, **st}
