from util import *
from regs import *

ID = "R01"
META = {
    "title": "Register mirror and desired values follow the field access policies",
    "statement": "For every register and history of set, predict (write, read, direct; front door, back door or plain prediction; any byte enables; through maps with rights RW, RO or WO), and reset on registers and fields, the mirrored and desired value of every field is what the 25 predefined access policies of IEEE 1800.2 prescribe: only fields whose first byte is enabled are predicted, others keep their values, and registers are exactly the concatenation of their fields. needs_update is true exactly when some field's desired value differs from its mirror or is volatile; reset values (which can be set and deleted per kind), set_access, set_volatility, set_compare (off at first for volatile fields), get_fields (in LSB order) and the overlap check act as configured.",
    "over": ["inputs", "histories"],
    "quant": "all field layouts, the 25 policies, reset values and kinds, rights, operation histories, values and byte enables",
    "why": "Unit tests touch a few policies with one or two values; the policy tables are wide and small slips in one cell go unnoticed.",
    "files": ["src/uvm/reg/uvm_reg_field.py", "src/uvm/reg/uvm_reg.py"],
    "mech": [["UVMRegField.do_predict / XpredictX / set / get_access / reset", "src/uvm/reg/uvm_reg_field.py"], ["UVMReg.do_predict / set / get / add_field", "src/uvm/reg/uvm_reg.py"]],
    "note": "Random registers and histories against an independent reference of the policy tables.",
}
RULE = "a prediction changed the mirror of a field whose policy is not RW"
N = (700, 60000)
ASSUMPTIONS = ["no access to the register is in progress"]


def strategy():
    def fn(g):
        n_bits = g.pick([8, 16, 32, 32, 64, 24])
        fields = gen_fields(g, n_bits)
        for f in fields:
            f["vol"] = int(g.b(1, 12))
            f["reset"] = g.pick([f["reset"], f["reset"], f["reset"], None])
            f["soft"] = g.bits(f["n"]) if g.b(1, 5) else None
        if g.b(1, 12):
            g.pick(fields)["lsb"] = g.i(0, n_bits - 1)
        names = [f["name"] for f in fields]
        ops = []
        for _ in range(g.i(1, 14)):
            tgt = g.pick([None] + names)
            w = n_bits if tgt is None else [f["n"] for f in fields if f["name"] == tgt][0]
            k = g.i(0, 11)
            if k < 2:
                ops.append(["set", tgt, g.bits(w)])
            elif k < 7:
                be = -1 if g.b(2, 3) else g.bits(max(n_bits // 8, 1))
                ops.append(["predict", tgt, g.bits(w), be, g.pick(["write", "write", "read", "direct"]), g.pick(["front", "front", "back", "predict"]), g.pick(["rw", "rw", "ro", None, "wo"])])
            elif k == 7:
                ops.append(["reset", tgt, g.pick(["HARD", "HARD", "SOFT", "BOD"])])
            elif k == 8:
                ops.append(["over", tgt or names[0], g.bits(w)])
            elif k == 9:
                n = tgt or names[-1]
                ops.append([g.pick(["rand", "rand0"]), n, g.bits([f["n"] for f in fields if f["name"] == n][0])])
            elif k == 10:
                ops.append(["rst", tgt or names[0], g.pick(["HARD", "SOFT", "BOD"]), g.pick([None, g.bits(70)])])
            else:
                ops.append([g.pick(["acc", "acc", "vol", "cmp"]), tgt or names[-1], g.pick(POLICIES), int(g.b(1, 2)), g.i(0, 2)])
        return {"n": n_bits, "fields": fields, "order": g.perm(names), "ops": ops, "case": g.pick([0, 0, 0, 1, 2])}
    return gen(fn, 400)


def run(case):
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_model import (UVM_NO_COVERAGE, UVM_LITTLE_ENDIAN, UVM_PREDICT_WRITE, UVM_PREDICT_READ, UVM_PREDICT_DIRECT,
                                       UVM_FRONTDOOR, UVM_BACKDOOR, UVM_PREDICT, UVM_CHECK, UVM_NO_CHECK)
    rep = Reports()
    blk = UVMRegBlock("blk", UVM_NO_COVERAGE)
    fs = {f["name"]: f for f in case["fields"]}
    spell = [str.upper, str.lower, str.capitalize][case["case"]]       # access names in any case
    reg = make_reg("r", case["n"], [dict(fs[n], pol=spell(fs[n]["pol"])) for n in case["order"]])
    spans = sorted((f["lsb"], f["lsb"] + f["n"]) for f in case["fields"])
    overlap = any(a[1] > b[0] for a, b in zip(spans, spans[1:]))
    if overlap or sum(f["n"] for f in case["fields"]) > case["n"]:
        check(rep.errors(), "overlapping fields %r are not reported", spans)
        return {"nontrivial": False, "overlap": 1}
    rep.none_bad("for a sound field layout")
    reg.configure(blk)
    maps = {None: None}
    rights = {None: "RW"}
    for m, r in (("rw", "RW"), ("ro", "RO"), ("wo", "WO")):
        maps[m] = blk.create_map(m, 0, case["n"] // 8, UVM_LITTLE_ENDIAN)
        maps[m].add_reg(reg, 0, r)
        rights[m] = r
    blk.lock_model()
    model = {n: FieldState(f) for n, f in fs.items()}
    for n, f in fs.items():
        if f["soft"] is not None:
            reg.fl[n].set_reset(f["soft"] | (1 << f["n"]), "SOFT")
            model[n].resets["SOFT"] = f["soft"]
    eq([f.get_name() for f in reg.get_fields([])], [f["name"] for f in sorted(case["fields"], key=lambda f: f["lsb"])], "get_fields")
    st = {"changed": 0, "warn": 0, "op": 0}
    kinds = {"write": UVM_PREDICT_WRITE, "read": UVM_PREDICT_READ, "direct": UVM_PREDICT_DIRECT}
    paths = {"front": UVM_FRONTDOOR, "back": UVM_BACKDOOR, "predict": UVM_PREDICT}

    def compare(what):
        des = mir = 0
        for n, m in model.items():
            f = reg.fl[n]
            eq((f.get(), f.get_mirrored_value()), (m.des, m.mir), "%s: desired, mirrored value of %s (%s)" % (what, n, m.pol))
            eq(f.value, m.des, "%s: value of %s" % (what, n))
            eq(bool(f.needs_update()), m.des != m.mir or bool(m.spec["vol"]), "%s: needs_update of %s" % (what, n))
            des |= m.des << m.lsb
            mir |= m.mir << m.lsb
        eq((reg.get(), reg.get_mirrored_value()), (des, mir), what + ": desired, mirrored value of the register")
        eq(bool(reg.needs_update()), any(m.des != m.mir or m.spec["vol"] for m in model.values()), what + ": needs_update of the register")

    for n, m in model.items():
        f = reg.fl[n]
        check(reg.get_field_by_name(n) is f, "get_field_by_name(%s)", n)
        eq((f.get_lsb_pos(), f.get_n_bits(), bool(f.is_volatile())), (m.lsb, m.n, bool(m.spec["vol"])), "configuration of " + n)
        for r in ("rw", "ro", "wo"):
            eq(f.get_access(maps[r]), restricted(m.pol, rights[r]), "access of a %s field through map %s" % (m.pol, r))
            eq(bool(f.is_known_access(maps[r])), restricted(m.pol, rights[r]) != "NOACCESS", "is_known_access")
        eq(f.get_compare(), UVM_NO_CHECK if m.spec["vol"] else UVM_CHECK, "get_compare() of %s (volatile %d)" % (n, m.spec["vol"]))
        check(f.get_parent() is reg and f.get_register() is reg, "parent of %s", n)
        eq(f.get_full_name(), "blk.r." + n, "full name")
        for k in ("HARD", "SOFT"):
            eq(bool(f.has_reset(k)), k in m.resets, "has_reset(%s) of %s" % (k, n))
            if k in m.resets:
                eq(f.get_reset(k), m.resets[k], "get_reset(%s) of %s" % (k, n))
    compare("initially")
    for i, op in enumerate(case["ops"]):
        what = "op %d %r" % (i, op)
        tgt = reg if op[1] is None else reg.fl[op[1]]
        sel = [model[op[1]]] if op[1] else list(model.values())
        if op[0] == "set":
            tgt.set(op[2])
            for m in sel:
                m.set(op[2] >> (0 if op[1] else m.lsb) & m.mask)
        elif op[0] == "over":
            m = model[op[1]]
            tgt.set(op[2] | (1 << m.n))
            m.set(op[2] & m.mask)
            st["warn"] += 1
        elif op[0] == "reset":
            tgt.reset(op[2])
            for m in sel:
                m.reset(op[2])
        elif op[0] == "rand":
            tgt.value = op[2]
            tgt.post_randomize()
            sel[0].des = op[2]
        elif op[0] == "rand0":
            tgt.value = op[2]
            tgt.pre_randomize()
        elif op[0] == "rst":
            m, k = sel[0], op[2]
            if op[3] is None:
                eq(bool(tgt.has_reset(k, True)), k in m.resets, what + ": has_reset(%s, delete)" % k)
                m.resets.pop(k, None)
            else:
                tgt.set_reset(op[3], k)
                m.resets[k] = op[3] & m.mask
            eq(bool(tgt.has_reset(k)), k in m.resets, what + ": has_reset(%s)" % k)
            eq(tgt.get_reset(k), m.resets.get(k, m.des), what + ": get_reset(%s)" % k)
        elif op[0] == "acc":
            eq(tgt.set_access(spell(op[2])), sel[0].pol, what + ": previous access")
            sel[0].pol = op[2]
            for r in ("rw", "ro", "wo"):
                eq(tgt.get_access(maps[r]), restricted(op[2], rights[r]), what + ": access through map " + r)
        elif op[0] == "vol":
            tgt.set_volatility(bool(op[3]))
            sel[0].spec = dict(sel[0].spec, vol=op[3])
            eq(bool(tgt.is_volatile()), bool(op[3]), what + ": is_volatile")
        elif op[0] == "cmp":
            tgt.set_compare(*[[], [UVM_CHECK], [UVM_NO_CHECK]][op[4]])
            eq(tgt.get_compare(), [UVM_CHECK, UVM_CHECK, UVM_NO_CHECK][op[4]], what + ": get_compare")
        else:
            _, _, v, be, kind, path, mp = op
            ok = tgt.predict(v, be, kinds[kind], paths[path], maps[mp])
            check(ok == 1, "%s failed", what)
            for m in sel:
                old = m.mir
                on = (be >> (0 if op[1] else m.lsb // 8)) & 1
                if on:
                    m.predict(kind, v >> (0 if op[1] else m.lsb) & m.mask, path != "back", rights[mp])
                if m.pol != "RW" and m.mir != old:
                    st["changed"] += 1
        st["op"] += 1
        compare(what)
    eq(len(rep.warnings()), st["warn"], "warnings")
    check(not rep.errors(), "unexpected %r", rep.errors()[:2])
    return {"nontrivial": st["changed"] > 0, "ops": st["op"]}
