from util import *

ID = "V02"
META = {
    "title": "Randomization satisfies every constraint and nothing else decides",
    "statement": "For every randomizable object (random variables over value lists, constraints on one or more of them, nested random objects, hooks): randomize() returns True with every variable in its list, every constraint satisfied and everything else unchanged; every solution can occur; nested objects are randomized once each (not at all with recurse=False) and pre_randomize and post_randomize run exactly once, before and after the values change. randomize_with also satisfies the inline constraints, which do not persist. An unsatisfiable set of constraints raises RandomizeError and leaves the object usable; with rand_mode off nothing changes and no hook runs. The values an object takes do not depend on what is randomized in between.",
    "over": ["inputs", "histories"],
    "quant": "all sets of random variables, constraints, nestings, inline constraints and interleavings with other objects",
    "why": "The unit tests randomize two fixed packets once; constraint combinations, hooks, nesting, failures and stability are untested.",
    "files": ["src/uvm/base/sv.py", "src/uvm/base/uvm_object.py"],
    "mech": [["sv_obj.rand / constraint / randomize / randomize_with / rand_mode", "src/uvm/base/sv.py"]],
    "note": "Random objects over small domains; the solutions are enumerated by brute force and compared with what randomization produces.",
}
RULE = "a constraint on two variables, a nested object or an inline constraint"
N = (70, 12000)
ASSUMPTIONS = ["one Boolean constraint per set of variables (a restriction of the solver underneath)", "that every solution occurs is judged on up to 4 solutions in 80 randomizations",
               "independence of other randomizations is judged without constraints on several variables (the solver underneath draws those from numpy's generator)", "the values after a failed randomization are not prescribed"]
VARS = ["a", "b", "c", "d"]


def strategy():
    def fn(g):
        def obj(depth):
            n = g.pick([2, 1, 3])
            vs = VARS[:n]
            o = {"vars": {v: sorted(set(g.i(0, 7) for _ in range(g.pick([3, 1, 2, 5, 4])))) for v in vs}, "cons": [], "plain": g.i(0, 9), "subs": []}
            for v in vs:
                if g.b(1, 3):
                    o["cons"].append(cons(g, [v]))
            for i in range(n - 1):
                if g.b(1, 2):
                    o["cons"].append(cons(g, vs[i:i + 2]))
            if depth < 2 and g.b(1, 2):
                o["subs"] = g.some(1, g.pick([2, 3]), lambda: [g.pick(["name", "object"]), obj(depth + 1)])
            return o
        o = obj(0)
        names = sorted(o["vars"])
        ops = []
        for _ in range(g.i(1, 5)):
            k = g.i(0, 5)
            ops.append(["rand"] if k < 2 else ["with", [cons(g, [v]) for v in (names if g.b(1, 3) else g.subset(names, 1))]] if k == 2 else ["with", [cons(g, names[:2])]] if k == 3 else ["flat"] if k == 4 else ["off"])
        return {"obj": o, "ops": ops, "other": obj(1), "seed": g.i(0, 1 << 30), "between": g.some(1, 4, lambda: g.i(0, 2))}

    def cons(g, vs):
        if len(vs) == 1:
            return [vs, g.pick(["ne", "lt", "ne", "even", "in"]), g.pick([5, 7, 3, 2, 6, 0]), g.i(0, 7)]
        return [vs, g.pick(["ne", "sum", "ne", "sum", "lt", "eq"]), g.pick([8, 14, 10, 6, 4]), 0]
    return gen(fn, 260)


def holds(c, env):
    vs, k, x, y = c
    a = env[vs[0]]
    if len(vs) == 1:
        return {"lt": a <= x, "in": a in (x, y), "even": a % 2 == 0, "ne": a != x}[k]
    b = env[vs[1]]
    return {"sum": a + b <= x, "lt": a < b, "ne": a != b, "eq": a == b}[k]


def func(c):
    vs = c[0]
    if len(vs) == 1:
        ns = {"K": c, "holds": holds}
        return eval("lambda %s: holds(K, {%r: %s})" % (vs[0], vs[0], vs[0]), ns)
    ns = {"K": c, "holds": holds}
    return eval("lambda %s, %s: holds(K, {%r: %s, %r: %s})" % (vs[0], vs[1], vs[0], vs[0], vs[1], vs[1]), ns)


def solutions(o, extra=()):
    """All solutions; inline constraints on the same variables replace those of the object."""
    import itertools
    names = sorted(o["vars"])
    over = [c[0] for c in extra]
    cs = [c for c in o["cons"] if c[0] not in over] + list(extra)
    return [s for s in (dict(zip(names, t)) for t in itertools.product(*[o["vars"][n] for n in names])) if all(holds(c, s) for c in cs)]


def run(case):
    import random
    from uvm import UVMObject
    from uvm.base.uvm_exceptions import RandomizeError
    rep = Reports()
    calls = []
    st = {"inline": 0, "failed": 0, "rand": 0}

    class Obj(UVMObject):
        def __init__(self, name, spec):
            UVMObject.__init__(self, name)
            self.spec = spec
            self.plain = spec["plain"]
            self.kids = []
            for v, dom in spec["vars"].items():
                setattr(self, v, -1)
                self.rand(v, list(dom))
            for c in spec["cons"]:
                self.constraint(func(c))
            for k, (how, s) in enumerate(spec["subs"]):
                x = Obj("%s.k%d" % (name, k), s)
                self.kids.append(x)
                if how == "name":
                    setattr(self, "kid%d" % k, x)
                    self.rand("kid%d" % k)
                else:
                    self.rand(x)

        def vals(self):
            return {v: getattr(self, v) for v in self.spec["vars"]}

        def all(self):
            return [self] + [y for k in self.kids for y in k.all()]

        def pre_randomize(self):
            calls.append(("pre", self, self.vals()))

        def post_randomize(self):
            calls.append(("post", self, self.vals()))
    random.seed(case["seed"])
    top = Obj("top", case["obj"])
    other = Obj("other", case["other"])
    solvable = lambda o, extra=(): bool(solutions(o.spec, extra))

    def attempt(fn):
        del calls[:]
        try:
            return fn()
        except RandomizeError:
            st["failed"] += 1
            return RandomizeError

    def judge(before, extra, recurse, what):
        """After a successful randomization."""
        done = top.all() if recurse else [top]
        for o in top.all():
            eq(o.plain, o.spec["plain"], what + ": attribute that is not random")
            if o not in done:
                eq(o.vals(), before[o.get_name()], what + ": values of a nested object that is not to be randomized")
                continue
            v = o.vals()
            check(v in solutions(o.spec, extra if o is top else ()), "%s: %s took %r, which violates its domains or constraints %r %r", what, o.get_name(), v, o.spec["cons"], extra if o is top else ())
            mine = [c for c in calls if c[1] is o]
            eq([c[0] for c in mine], ["pre", "post"], what + ": hooks of " + o.get_name())
            eq((mine[0][2], mine[1][2]), (before[o.get_name()], v), what + ": values of %s seen by its hooks" % o.get_name())
        st["rand"] += 1

    for k, op in enumerate(case["ops"]):
        what = "op %d %r" % (k, op)
        before = {o.get_name(): o.vals() for o in top.all()}
        kids_ok = all(solvable(o) for o in top.all()[1:])
        if op[0] == "off":
            top.rand_mode(False)
            for f in (top.randomize, lambda: top.randomize_with(lambda a: a >= 0)):
                check(attempt(f) is True, "%s: result with rand_mode off", what)
                eq(({o.get_name(): o.vals() for o in top.all()}, calls), (before, []), what + ": values, hooks with rand_mode off")
            top.rand_mode(True)
            continue
        extra = op[1] if op[0] == "with" else []
        # the solver is asked to apply at most one constraint per set of variables
        extra = [c for i, c in enumerate(extra) if c[0] not in [e[0] for e in extra[:i]] and all(v in case["obj"]["vars"] for v in c[0])]
        extra = [c for c in extra if len(c[0]) == 1 or len(case["obj"]["vars"]) > 1]
        if op[0] == "with" and not extra:
            continue
        recurse = op[0] != "flat"
        if op[0] == "with":
            r = attempt(lambda: top.randomize_with(*[func(c) for c in extra]))
            st["inline"] += 1
        else:
            r = attempt((lambda: top.randomize()) if recurse else (lambda: top.randomize(recurse=False)))
        want = solvable(top, extra) and (kids_ok or not recurse)
        check(r is (True if want else RandomizeError), "%s: result %r, expected %s", what, r, "success" if want else "RandomizeError")
        if want:
            judge(before, extra, recurse, what)
    # nothing persists: every solution of the object occurs, and no other
    sols = solutions(case["obj"])
    if sols and all(solvable(o) for o in top.all()):
        seen = []
        for _ in range(80 if len(sols) <= 4 else 8):
            check(top.randomize() is True, "final randomize()")
            check(top.vals() in sols, "final randomize(): %r violates %r", top.vals(), case["obj"])
            if top.vals() not in seen:
                seen.append(top.vals())
        check(len(sols) > 4 or len(seen) == len(sols), "of the solutions %r only %r occurred", sols, seen)
        # the same through inline constraints alone
        free = [v for v in sorted(case["obj"]["vars"]) if [v] not in [c[0] for c in case["obj"]["cons"]]]
        if len(sols) <= 4 and free:
            seen = []
            for _ in range(80):
                check(top.randomize_with(eval("lambda %s: %s >= 0" % (free[0], free[0]))) is True, "final randomize_with()")
                if top.vals() not in seen:
                    seen.append(top.vals())
            check(len(seen) == len(sols), "of the solutions %r only %r occurred with randomize_with()", sols, seen)
        # stability
        runs = [0, 0] if any(len(c[0]) > 1 for o in top.all() for c in o.spec["cons"]) else []
        for disturb in (0, 1, 2) if not runs else ():
            random.seed(case["seed"])
            a = Obj("a", case["obj"])
            b = Obj("b", case["other"])
            got = []
            for n in case["between"] + [1]:
                for _ in range(n if disturb else 0):
                    try:
                        random.random()
                        for x in [b] if disturb == 1 else a.kids:
                            x.randomize()
                    except RandomizeError:
                        pass
                if n == 2 and len(case["obj"]["vars"]) > 1:
                    a.randomize_with(lambda a: a >= 0) if not any(c[0] == ["a"] for c in case["obj"]["cons"]) else a.randomize()
                else:
                    a.randomize()
                got.append([o.vals() for o in a.all()])
            runs.append(got)
        eq(runs[1], runs[0], "values of an object with and without other randomizations in between")
        if runs[2:]:
            eq([r[0] for r in runs[2]], [r[0] for r in runs[0]], "values of an object with and without randomizations of its nested objects in between")
    check(not rep.errors(), "unexpected errors %r", rep.errors()[:2])
    nt = any(len(c[0]) == 2 for c in case["obj"]["cons"]) or bool(case["obj"]["subs"]) or st["inline"] > 0
    return {"nontrivial": nt, "randomized": st["rand"], "failed": st["failed"], "inline": st["inline"]}
