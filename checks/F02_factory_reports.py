from util import *
import re

ID = "F02"
META = {
    "title": "The factory's debug reports and listings agree with what it creates",
    "statement": "For every history of overrides and requests: debug_create_by_type, debug_create_by_name and a component's print_override_info announce exactly the type that the same request to create would produce, list every distinct override met on the way with the ignored ones marked, create nothing and leave later requests unchanged; print_factory lists every instance override in the order added, every type override with its final target, and the registered types when asked. A component's create_component, create_object, set_type_override and set_type_override_by_type, and the registry's instance override relative to a parent, act as the factory's own below that component. Debugging an unknown name is a warning; an override loop is reported as an error, with the overrides met.",
    "over": ["histories", "inputs"],
    "quant": "all sequences of override registrations, replacements, chains and loops, interleaved with debug requests, listings and creations",
    "why": "The tests never compare what the factory says with what it does; a report that lies about overrides misleads every debugging session.",
    "files": ["src/uvm/base/uvm_factory.py", "src/uvm/base/uvm_registry.py", "src/uvm/base/uvm_component.py"],
    "mech": [["UVMDefaultFactory.debug_create_by_type / debug_create_by_name / m_debug_display", "src/uvm/base/uvm_factory.py"], ["UVMDefaultFactory.print_factory / convert2string", "src/uvm/base/uvm_factory.py"], ["UVMComponent.create_component / create_object / set_type_override / print_override_info", "src/uvm/base/uvm_component.py"]],
    "note": "Random histories over five registered types against a reference resolver; the reports are parsed.",
}
RULE = "a report or request met at least one override"
N = (300, 30000)
ASSUMPTIONS = ["overridden types are registered", "no type is overridden by itself except for instances, and that is not debugged by name", "names and paths without blanks", "the layout of the reports (widths of columns) is not prescribed"]
NT = 5
SEG = ["a", "b", "ab", "c1"]


def strategy():
    def fn(g):
        comp = g.b()
        paths = ["a", "b", "a.b", "a.ab", "b.c1", "a.b.a"]

        def t():
            return g.i(0, NT - 1)

        def pat():
            p = ".".join(g.some(1, 3, lambda: g.pick(SEG)))
            k = g.i(0, 3)
            if k == 0:
                return p
            if k == 1:
                return g.pick(["*", g.pick(paths) + "." + g.pick(SEG), g.pick(paths) + "." + g.pick(SEG), "*." + g.pick(SEG)])
            i = g.i(0, len(p))
            return p[:i] + "*" + p[g.i(i, len(p)):] if k == 2 else p[:max(i - 1, 0)] + "?" + p[max(i, 1):]
        steps = []
        for i in range(g.i(4, 32)):
            k = g.i(0, 15)
            if i < 4:
                k = g.i(0, 5)
            if k < 3:
                steps.append(["type", t(), t(), g.b(), g.pick(["ft", "fn", "ct", "cn", "id"])])
            elif k < 6:
                steps.append(["inst", t(), t(), pat(), g.pick(["ft", "id", "idp"]), g.pick(paths)])
            elif k < 10:
                steps.append(["debug", g.pick(["type", "name", "comp"]), t() if g.b(9, 10) else NT, g.pick(["", *paths]), g.pick(SEG + [""])])
            elif k < 11:
                steps.append(["print", g.i(0, 2)])
            else:
                steps.append(["create", t(), g.pick(["", *paths]), g.pick(SEG), g.pick(["f", "c", "id"])])
        return {"comp": comp, "steps": steps}
    return gen(fn, 640)


class Model:
    def __init__(self):
        self.types, self.insts = [], []

    def type_override(self, o, n, replace):
        for e in self.types:
            if e[0] == o:
                if replace:
                    e[1] = n
                return
        self.types.append([o, n])

    def resolve(self, name, path):
        """(type, overrides met as (orig, path, target, used), in a loop?)"""
        seen, met, first = set(), [], True
        while True:
            if name in seen:
                return name, met, True
            cand = [(o, p, n) for o, n, p in self.insts if path and o == name and glob_match(p, path)] + [(o, "*", n) for o, n in self.types if o == name]
            met += [(o, p, n, i == 0) for i, (o, p, n) in enumerate(cand)]
            if not cand or cand[0][2] == name:
                return name, met, False
            seen.add(name)
            name = cand[0][2]


def run(case):
    from uvm import UVMObject, UVMComponent, uvm_object_utils, uvm_component_utils
    from uvm.base.uvm_factory import UVMFactory
    rep = Reports()
    comp = case["comp"]
    made = []
    cls = []
    names = ["FrT%d" % i for i in range(NT)] + ["FrGhost"]
    for i in range(NT):
        def init(self, name="", parent=None, _comp=comp):
            if _comp:
                UVMComponent.__init__(self, name, parent)
            else:
                UVMObject.__init__(self, name)
            made.append(self)
        k = type(names[i], (UVMComponent if comp else UVMObject,), {"__init__": init})
        (uvm_component_utils if comp else uvm_object_utils)(k)
        cls.append(k)
    wrap = [k.type_id for k in cls]
    f = UVMFactory.get()
    m = Model()
    comps = {}

    def node(path):
        if path not in comps:
            head, _, leaf = path.rpartition(".")
            comps[path] = UVMComponent(leaf, node(head) if head else None)
        return comps[path]
    for p in ("a", "b", "a.b", "a.ab", "b.c1", "a.b.a"):
        node(p)
    taken = set(comps)
    st = {"met": 0, "loops": 0, "n": 0}

    def join(p, leaf):
        return p + "." + leaf if p and leaf else p or leaf

    def infos(id_):
        return [x[2] for x in rep.of(0, id_)]
    for k, s in enumerate(case["steps"]):
        what = "step %d %r" % (k, s)
        e0, w0, n0 = len(rep.errors()), len(rep.warnings()), len(made)
        loop, d0 = False, len(infos("UVM/FACTORY/DUMP"))
        if s[0] == "type":
            o, n, r, how = s[1:]
            if o == n:
                continue            # (warned about or refused)
            if how == "ft":
                f.set_type_override_by_type(wrap[o], wrap[n], r)
            elif how == "fn":
                f.set_type_override_by_name(names[o], names[n], r)
            elif how == "ct":
                comps["a"].set_type_override_by_type(wrap[o], wrap[n], r)
            elif how == "cn":
                comps["b"].set_type_override(names[o], names[n], r)
            else:
                wrap[o].set_type_override(wrap[n], r)
            m.type_override(names[o], names[n], r)
        elif s[0] == "inst":
            o, n, pat, how, par = s[1:]
            if how == "ft":
                f.set_inst_override_by_type(wrap[o], wrap[n], pat)
            elif how == "id":
                wrap[o].set_inst_override(wrap[n], pat)
            else:
                pat = "" if len(pat) == 1 else pat
                wrap[o].set_inst_override(wrap[n], pat, comps[par])
                pat = join(par, pat)
            if (names[o], names[n], pat) not in m.insts:
                m.insts.append((names[o], names[n], pat))
        elif s[0] == "debug":
            how, ti, par, leaf = s[1:]
            if how == "comp" and not par:
                how = "name"
            full = join(par, leaf)
            if ti == NT and how == "type":
                how = "name"
            if ti < NT and any(p[0] == p[2] == names[ti] for p in m.resolve(names[ti], full)[1]):
                how = "type"        # (by name, an exemption counts as a loop)
            if how == "type":
                f.debug_create_by_type(wrap[ti], par, leaf)
            elif how == "name":
                f.debug_create_by_name(names[ti], par, leaf)
            else:
                comps[par].print_override_info(names[ti], leaf)
            out = infos("UVM/FACTORY/DUMP")[d0:]
            if ti == NT:
                eq((len(out), len(rep.warnings()) - w0), (0, 1), what + ": dumps and warnings for an unknown type name")
                check(names[NT] in rep.warnings()[-1][2], "%s: warning %r", what, rep.warnings()[-1])
                w0 += 1
            else:
                want, met, loop = m.resolve(names[ti], full)
                eq(len(out), 1, what + ": dumps")
                got = re.findall(r"will produce an object of type '([^']*)'", out[0])
                eq(got, [want], what + ": type announced, overrides %r" % (met,))
                rows = re.findall(r"^([x ]) (FrT\d)\s+(\S+)\s+(FrT\d)\s*(?:<type override>)?$", re.sub(r"<type override>(?!$)", "<type override>\n", out[0], flags=re.M), re.M)
                eq([(o, p, n, x == " ") for x, o, p, n in rows], met, what + ": overrides listed in %r" % out[0])
                st["met"] += len(met)
        elif s[0] == "print":
            p0 = len(infos("UVM/FACTORY/PRINT"))
            f.print_factory(s[1])
            out = infos("UVM/FACTORY/PRINT")[p0:]
            eq(len(out), 1, what)
            head, sep, tail = out[0].partition("All types registered")
            eq(bool(sep), s[1] > 0, what + ": list of all types")
            inst, sep2, typ = head.partition("Type Overrides:")
            got = re.findall(r"^  (FrT\d)\s+(\S+)\s+(FrT\d)\s*$", inst, re.M)
            for n in names[:NT]:
                eq([x for x in got if x[0] == n], [(o, p, t) for o, t, p in m.insts if o == n], what + ": instance overrides of %s listed" % n)
            got = re.findall(r"^  (FrT\d)\s+(FrT\d)\s*$", typ, re.M)
            eq(got, [tuple(x) for x in m.types], what + ": type overrides listed")
            if s[1]:
                listed = re.findall(r"^  (\S+)$", tail, re.M)
                for n in names[:NT]:
                    eq(listed.count(n), 1, what + ": %s among the types" % n)
                check(names[NT] not in listed, "%s: unregistered type listed", what)
            st["met"] += len(m.insts) + len(m.types)
        else:
            ti, par, leaf, how = s[1:]
            full = join(par, leaf)
            if comp and full in taken:
                continue
            taken.add(full)
            want, met, loop = m.resolve(names[ti], full)
            if how == "c" and not par:
                how = "f"
            p = comps[par] if par else None
            if how == "c":
                x = p.create_component(names[ti], leaf) if comp else p.create_object(names[ti], leaf)
            elif how == "f":
                x = f.create_component_by_type(wrap[ti], par, leaf, p) if comp else f.create_object_by_type(wrap[ti], par, leaf)
            else:
                x = cls[ti].type_id.create(leaf, p)
            check(x is not None and len(made) == n0 + 1 and made[-1] is x, "%s: made %r, returned %r", what, made[n0:], x)
            n0 += 1
            eq(type(x).__name__, want, what + ": type produced")
            eq(x.get_name(), leaf, what + ": name")
            if comp and p is not None:
                check(x.get_parent() is p, "%s: parent %r", what, x.get_parent())
            eq(len(infos("UVM/FACTORY/DUMP")) - d0, int(loop), what + ": dumps")
            st["met"] += len(met)
        st["n"] += 1
        st["loops"] += bool(loop)
        eq(len(made), n0, what + ": objects made")
        errs = [x[1] for x in rep.errors()[e0:]]
        check(errs == [] if not loop else errs and set(errs) == {"OVRDLOOP"}, "%s: errors %r (loop: %r)", what, rep.errors()[e0:], loop)
    return {"nontrivial": st["met"] > 0, "steps": st["n"], "overrides_met": st["met"], "loops": st["loops"]}
