from util import *

ID = "F01"
META = {
    "title": "Factory overrides decide every created type",
    "statement": "For every history of type and instance overrides (by type, by name, or through a class's type_id) and every request path, the factory creates the type given by the documented resolution: the first matching instance override on the full path, otherwise the type override, applied transitively until nothing applies. Without an applicable override the requested type itself is created, an unregistered name creates nothing and is reported, and the created object carries the requested name and parent.",
    "over": ["histories", "inputs"],
    "quant": "all sequences of override registrations (replace on and off, chains and loops, glob instance paths) interleaved with creation requests by type, by name and through type_id, for objects and components",
    "why": "The unit tests register one or two overrides; resolution depends on the whole history of registrations, on pattern overlap and on transitive chains.",
    "files": ["src/uvm/base/uvm_factory.py", "src/uvm/base/uvm_registry.py", "src/uvm/base/uvm_globals.py"],
    "mech": [["UVMDefaultFactory.find_override_by_type / find_override_by_name", "src/uvm/base/uvm_factory.py"], ["UVMObjectRegistry/UVMComponentRegistry.create", "src/uvm/base/uvm_registry.py"], ["uvm_is_match", "src/uvm/base/uvm_globals.py"]],
    "note": "Random override/request histories over 5 registered types compared with a reference resolver.",
}
RULE = "an override applied to at least one request (the produced type differs from the requested one)"
N = (300, 30000)
NT = 5
SEG = ["a", "b", "ab", "c1", "u[0]", "u[1]"]


def pattern(g):
    kind = g.i(0, 3)
    p = ".".join(g.some(1, 3, lambda: g.pick(SEG)))
    if kind == 0:
        return p
    if kind == 1:
        return "*"
    if kind == 2:
        k = g.i(0, len(p))
        return p[:k] + "*" + p[g.i(k, len(p)):]
    k = g.i(0, len(p) - 1)
    return p[:k] + "?" + p[k + 1:]


def step(g, early):
    def t():
        return g.i(0, NT - 1)

    def ghost():
        return NT if g.b(1, 8) else t()
    k = g.i(0, 4 if early else 11)
    if k == 11 and g.b():
        return ["reg"]
    if k == 0:
        return ["tt", t(), t(), g.b(3, 4), g.b(1, 4)]
    if k == 1:
        return ["tn", ghost(), NT if g.b(1, 32) else t(), g.b(3, 4), g.b(1, 4)]
    if k == 2:
        return ["it", t(), t(), pattern(g)]
    if k == 3:
        return ["ct", t(), g.b(3, 4)]
    if k == 4:
        return ["ci", t(), t(), pattern(g)]
    s = [g.pick(["bt", "bn", "create", "comp"]), ghost(), ".".join(g.some(0, 3, lambda: g.pick(SEG))), g.pick(SEG)]
    if s[0] != "create" and g.b(1, 8):
        s[3] = ""
    if g.b(1, 6):
        s = ["contxt"] + s[1:] + [".".join(g.some(1, 3, lambda: g.pick(SEG)))]
    return s


def strategy():
    return gen(lambda g: {"comp": g.b(), "steps": g.some(1, 4, lambda: step(g, True)) + g.some(2, 12, lambda: step(g, False))}, 300)


class Model:
    def __init__(self):
        self.types = []       # [orig, ovrd]  (orig a name)
        self.insts = []       # (orig, ovrd, pattern)

    def type_override(self, o, n, replace):
        for e in self.types:
            if e[0] == o:
                if replace:
                    e[1] = n
                return
        self.types.append([o, n])

    def inst_override(self, o, n, pat):
        self.insts.append((o, n, pat))

    def resolve(self, name, path):
        seen = set()
        while True:
            if name in seen:
                return name, True
            nxt = None
            if path != "":
                for o, n, pat in self.insts:
                    if o == name and glob_match(pat, path):
                        nxt = n
                        break
            if nxt is None:
                for o, n in self.types:
                    if o == name:
                        nxt = n
                        break
            if nxt is None or nxt == name:
                return name, False
            seen.add(name)
            name = nxt


def run(case):
    from uvm import UVMObject, UVMComponent, uvm_object_utils, uvm_component_utils
    from uvm.base.uvm_factory import UVMFactory
    rep = Reports()
    comp = case["comp"]
    cls = []
    def make(i):
        if comp:
            def init(self, name, parent, _b=UVMComponent):
                _b.__init__(self, name, parent)
            k = type(names[i], (UVMComponent,), {"__init__": init})
            uvm_component_utils(k)
        else:
            def init(self, name="", _b=UVMObject):
                _b.__init__(self, name)
            k = type(names[i], (UVMObject,), {"__init__": init})
            uvm_object_utils(k)
        cls.append(k)
        wrap.append(k.type_id)
    wrap = []
    names = ["VfT%d" % i for i in range(NT)] + ["VfGhost"]
    for i in range(NT):
        make(i)
    f = UVMFactory.get()
    m = Model()
    hits = loops = reqs = 0
    parents = {"": None}

    def parent_for(path):
        if path in parents:
            return parents[path]
        head, _, leaf = path.rpartition(".")
        parents[path] = UVMComponent(leaf, parent_for(head))
        return parents[path]
    for s in case["steps"]:
        op = s[0]
        if op == "reg":
            # a type registered after overrides and requests that name it
            if len(cls) == NT and any(e[0] == "VfGhost" for e in m.types):
                continue            # the name is taken: registering it now is only a warning
            if len(cls) == NT:
                check(f.find_wrapper_by_name("VfGhost") is None, "a wrapper for VfGhost was found")
                make(NT)
            check(f.find_wrapper_by_name("VfGhost") is f.find_wrapper_by_name("VfGhost") is not None, "VfGhost was not found")
        elif op == "tt":
            (UVMComponent if s[4] else f).set_type_override_by_type(wrap[s[1]], wrap[s[2]], s[3])
            m.type_override(names[s[1]], names[s[2]], s[3])
        elif op == "ct":
            n = (s[1] + 1) % NT
            cls[s[1]].type_id.set_type_override(wrap[n], s[2])
            m.type_override(names[s[1]], names[n], s[2])
        elif op == "tn":
            before = len(rep.errors())
            (UVMComponent.set_type_override if s[4] else f.set_type_override_by_name)(names[s[1]], names[s[2]], s[3])
            known = s[2] < len(cls) or any(e[0] == names[s[2]] for e in m.types)
            if s[2] >= len(cls):
                if known:
                    # an overridden, never registered name as the target is outside this check
                    return {"nontrivial": False}
                check(len(rep.errors()) == before + 1, "override to an unregistered type name was not reported")
                continue
            if s[1] != s[2]:
                m.type_override(names[s[1]], names[s[2]], s[3])
        elif op == "it":
            f.set_inst_override_by_type(wrap[s[1]], wrap[s[2]], s[3])
            m.inst_override(names[s[1]], names[s[2]], s[3])
        elif op == "ci":
            cls[s[1]].type_id.set_inst_override(wrap[s[2]], s[3])
            m.inst_override(names[s[1]], names[s[2]], s[3])
        else:
            how, ti, ppath, leaf = s[:4]
            reqs += 1
            if comp and not leaf:
                leaf = "a"
            full = ppath + "." + leaf if ppath and leaf else ppath or leaf      # an object without a name is at its parent's path
            # an explicit context supersedes the path of the parent in the search
            want, loop = m.resolve(names[ti], s[4] + ("." + leaf if leaf else "") if how == "contxt" else full)
            par = parent_for(ppath) if comp or how == "comp" else None
            if how == "comp" and par is None:
                how = "bn"
            if comp and full in parents:
                continue            # sibling component names are unique
            if ti >= len(cls) and how not in ("bn", "comp"):
                if how == "contxt":
                    continue
                how = "bn"
            if how == "comp":
                # through the component the object belongs to
                obj = par.create_component(names[ti], leaf) if comp else par.create_object(names[ti], leaf)
            elif how == "bn":
                obj = (f.create_component_by_name(names[ti], ppath, leaf, par) if comp
                       else f.create_object_by_name(names[ti], ppath, leaf))
            elif how == "bt":
                obj = (f.create_component_by_type(wrap[ti], ppath, leaf, par) if comp
                       else f.create_object_by_type(wrap[ti], ppath, leaf))
            elif how == "contxt":
                obj = cls[ti].type_id.create(leaf, par if comp else (cls and UVMComponent("p%d" % reqs, None)), s[4])
            else:
                obj = (cls[ti].type_id.create(leaf, par) if comp else cls[ti].type_id.create(leaf, parent_for(ppath)) if reqs % 2
                       else cls[ti].type_id.create(leaf, None, ppath))
            if want == "VfGhost" and len(cls) == NT:
                check(obj is None, "an unregistered type name produced %r", obj)
                continue
            check(obj is not None, "request for %s at %r produced nothing, expected %s", names[ti], full, want)
            got = type(obj).__name__
            eq(got, want, "type produced for %s at %r by %s" % (names[ti], full, how))
            eq(obj.get_name(), leaf, "name of the produced object")
            if comp:
                parents[full] = obj
                eq(obj.get_full_name(), full, "full name of the produced component")
                check(obj.get_parent() is (par if par is not None else obj.get_parent()), "parent of the produced component")
            hits += want != names[ti]
            loops += loop
    return {"nontrivial": hits > 0, "requests": reqs, "overridden": hits, "loops": loops}
