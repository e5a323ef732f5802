from util import *

ID = "D07"
META = {
    "title": "Data access policies enforce their rule on every access history",
    "statement": "For every history of operations on data access policy objects: a get-to-lock object takes any number of sets until the first get, and afterwards reports an error for each set and keeps its value; a set-before-get object reports an error for a get before the first set (try_get returns 0 then, without a report) and otherwise yields the last value set; a simple-lock object takes sets only while unlocked and reports an error for each set while locked (try_set is refused then without a report). The value read is always the very object last accepted, and objects do not affect each other.",
    "over": ["histories"],
    "quant": "all sequences of set, get, try_get, lock, unlock and is_locked over several policy objects and all values, None and false ones included",
    "why": "There are no unit tests of these classes.",
    "files": ["src/uvm/dap/uvm_get_to_lock_dap.py", "src/uvm/dap/uvm_set_before_get_dap.py", "src/uvm/dap/uvm_simple_lock_dap.py"],
    "mech": [["uvm_get_to_lock_dap.set / get", "src/uvm/dap/uvm_get_to_lock_dap.py"], ["uvm_set_before_get_dap.get / try_get", "src/uvm/dap/uvm_set_before_get_dap.py"], ["uvm_simple_lock_dap.set / lock / unlock", "src/uvm/dap/uvm_simple_lock_dap.py"]],
    "note": "Random histories against a three-state model, errors counted through the report server.",
}
RULE = "an access was refused and a later one accepted or a value read back"
N = (200, 25000)
ASSUMPTIONS = ["try_set is not ported; try_get only for the set-before-get policy"]


def strategy():
    return gen(lambda g: {"kinds": g.some(1, 4, lambda: g.pick(["gtl", "sbg", "lock"])), "how": g.i(0, 1),
                          "ops": g.some(2, 30, lambda: [g.i(0, 3), g.pick(["set", "set", "get", "get", "try", "lock", "unlock", "is"]), g.i(0, 6)])}, 130)


def run(case):
    from uvm.dap import uvm_get_to_lock_dap, uvm_set_before_get_dap, uvm_simple_lock_dap
    rep = Reports()
    K = {"gtl": uvm_get_to_lock_dap, "sbg": uvm_set_before_get_dap, "lock": uvm_simple_lock_dap}
    ERR = {"gtl": "UVM/GET_TO_LOCK_DAP/SAG", "sbg": "UVM/SET_BEFORE_GET_DAP/NO_SET", "lock": "UVM/SIMPLE_LOCK_DAP/SAG"}
    vals = [0, None, "", False, [1], {"a": 1}, object()]
    ds = [K[k]("d%d" % i) if case["how"] else K[k].type_id.create("d%d" % i) for i, k in enumerate(case["kinds"])]
    ms = [{"v": None, "set": False, "lock": False, "n": 0} for _ in ds]
    st = {"refused": 0, "accepted": 0}
    after = False
    for i, what, v in case["ops"]:
        i %= len(ds)
        k, d, m = case["kinds"][i], ds[i], ms[i]
        err = 0
        if what == "set":
            d.set(vals[v])
            if k != "sbg" and m["lock"]:
                err = 1
            else:
                m["v"], m["set"] = v, True
        elif what == "get":
            r = d.get()
            if k == "sbg" and not m["set"]:
                err = 1
            elif m["set"]:
                check(r is vals[m["v"]], "%s %d: get returned %r, expected %r", k, i, r, vals[m["v"]])
            if k == "gtl":
                m["lock"] = True
        elif what == "try" and k == "sbg":
            out = []
            r = d.try_get(out)
            eq((bool(r), len(out)), (m["set"], int(m["set"])), "try_get result")
            check(not out or out[0] is vals[m["v"]], "try_get yielded %r", out)
        elif what == "try" and k == "lock":
            r = d.try_set(vals[v])
            eq(bool(r), not m["lock"], "try_set result")
            if not m["lock"]:
                m["v"], m["set"] = v, True
        elif k == "lock" and what in ("lock", "unlock"):
            getattr(d, what)()
            m["lock"] = what == "lock"
        elif k == "lock" and what == "is":
            eq(bool(d.is_locked()), m["lock"], "is_locked")
        new = rep.errors()
        eq([e[1] for e in new], [ERR[k]] * err, "errors of %s on %s object %d" % (what, k, i))
        check(not new or d.get_full_name() in new[0][2], "the error does not name the object: %r", new)
        del rep.msgs[:]
        st["refused"] += err
        if not err and st["refused"]:
            after = True
            st["accepted"] += 1
    return {"nontrivial": bool(st["refused"] and after), **st}
