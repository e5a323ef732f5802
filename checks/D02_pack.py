from util import *

ID = "D02"
META = {
    "title": "Packing is lossless and has the documented bit layout",
    "statement": "For every object tree and every sequence of pack calls in do_pack, with either byte order and with or without metadata, the packed bits are the fields in order (most significant bit first when big_endian, else least significant first), the packed size is their total, and bits, bytes and ints views show the same stream. Unpacking the stream in any of the three forms restores every packed field and nothing else (UVM_NOPACK fields keep their value) and consumes exactly the packed size. Asking for more bits than available or giving a size larger than the array is reported as an error.",
    "over": ["inputs"],
    "quant": "all object trees with 32-bit int, string and object fields and inheritance, all do_pack call sequences (any field size up to 200 bits, byte and int arrays with partial sizes, strings, nested and None objects), both byte orders, metadata on and off, pack/pack_bytes/pack_ints",
    "why": "Tests pack a few small objects with default settings; alignment, leading zeros, partial sizes, metadata and nesting interact.",
    "files": ["src/uvm/base/uvm_packer.py", "src/uvm/base/uvm_object.py", "src/uvm/macros/uvm_object_defines.py"],
    "mech": [["UVMPacker pack_*/unpack_*/get_*/put_*", "src/uvm/base/uvm_packer.py"], ["UVMObject.pack*/unpack*", "src/uvm/base/uvm_object.py"], ["_m_uvm_field_automation (UVM_PACK, UVM_UNPACK)", "src/uvm/macros/uvm_object_defines.py"]],
    "note": "Random trees and pack-call sequences against a bit-list reference encoder plus the round trip. Integer automation fields are 32-bit unsigned; without metadata a string is only used as the last item; strings contain no NUL.",
}
RULE = "the stream holds at least three items, one of them of a size that is not a multiple of 8, a string, an array or a nested object"
N = (300, 30000)
STR = ["", "a", "UVM", "x y", "\u00e9t\u00e9", "0", "ab" * 9, "\u20ac"]


def op(g, meta):
    k = g.i(0, 6 if meta else 4)
    if k in (0, 1):
        n = g.pick([1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 128, 200, g.i(1, 200)])
        v = g.bits(n)
        if g.b(1, 8):
            v |= 1 << (n + g.i(0, 9))       # the bits above the size are not packed
        if g.b(1, 8):
            v -= 1 << n                     # two's complement of a negative value
        return ["field" if k == 0 else "int", v, n]
    if k in (2, 3):
        w = 8 if k == 2 else 32
        a = [g.bits(w) for _ in range(g.i(1, 5))]
        return ["bytes" if k == 2 else "ints", a, g.pick([-1, -1, len(a) * w, g.i(1, len(a) * w)])]
    if k == 4:
        s = g.pick(STR)
        if meta and g.b():
            return ["str", s]
        return ["strn", s]
    if k == 5:
        return ["none"]
    return ["obj", {"c": 0, "v": {"i0": g.bits(32), "s0": g.pick(STR)}}]


def tree(g, cl, meta, depth, last):
    c = g.i(0, len(cl) - 1)
    v = {}
    for f in fields(cl, c):
        if f[1] == "obj":
            v[f[0]] = tree(g, cl, meta, depth - 1, False) if depth > 0 else {"c": -1, "v": {}}
        elif f[1] == "str":
            v[f[0]] = g.pick(STR) if (meta or f[2]) else None
        else:
            v[f[0]] = g.bits(32)
    for h, w in hooks(cl, c):
        v[h] = g.bits(w)
    return {"c": c, "v": v}


def hooks(cl, c):
    return (hooks(cl, cl[c]["base"]) if cl[c]["base"] is not None else []) + (
        [["h%d" % c, cl[c]["hook"]]] if cl[c].get("hook") else [])


def fields(cl, c):
    return (fields(cl, cl[c]["base"]) if cl[c]["base"] is not None else []) + cl[c]["fields"]


def case_(g):
    meta = g.b()
    cl = [{"base": None, "fields": [["i0", "int", False], ["s0", "str", not meta]]}]
    for i in range(1, 4):
        fs = []
        for j in range(g.i(1, 3)):
            kind = g.pick(["int", "int", "str", "obj"] if meta else ["int", "int", "obj"])
            fs.append(["f%d%s" % (i, "xyz"[j]), kind, g.b(1, 5)])
        cl.append({"base": g.pick([None] + list(range(i))), "fields": fs, "hook": g.i(1, 40) if g.b(1, 3) else 0})
    return {"cl": cl, "meta": meta, "big": g.b(), "via": g.i(0, 2), "t": tree(g, cl, meta, 2, True),
            "ops": g.some(0, 8, lambda: op(g, meta)), "tail": None if meta or g.b() else g.pick(STR), "over": g.i(1, 40)}


def strategy():
    return gen(case_, 500)


def run(case):
    from uvm.macros.uvm_object_defines import (uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int,
                                               uvm_field_string, uvm_field_object)
    from uvm import UVMObject
    from uvm.base.uvm_packer import UVMPacker
    from uvm.base.uvm_object_globals import UVM_DEFAULT, UVM_NOPACK
    rep = Reports()
    cl, meta, big = case["cl"], case["meta"], case["big"]
    K = {}
    mk = {"int": uvm_field_int, "str": uvm_field_string, "obj": uvm_field_object}
    for i, c in enumerate(cl):
        base = UVMObject if c["base"] is None else K[c["base"]]

        def init(self, name="", _b=base):
            _b.__init__(self, name)
        mem = {"__init__": init}
        if c.get("hook"):
            def do_pack(self, p, _b=base, _h="h%d" % i, _w=c["hook"]):
                _b.do_pack(self, p)
                p.pack_field_int(getattr(self, _h), _w)

            def do_unpack(self, p, _b=base, _h="h%d" % i, _w=c["hook"]):
                _b.do_unpack(self, p)
                setattr(self, _h, p.unpack_field_int(_w))
            mem["do_pack"], mem["do_unpack"] = do_pack, do_unpack
        k = type("P%d" % i, (base,), mem)
        uvm_object_utils_begin(k)
        for f in c["fields"]:
            mk[f[1]](f[0], UVM_DEFAULT | (UVM_NOPACK if f[2] else 0))
        uvm_object_utils_end(k)
        K[i] = k
    K[-1] = type("PE", (UVMObject,), {})     # an object without any field

    class Top(UVMObject):
        def do_pack(self, p):
            for o in self.ops:
                if o[0] == "field":
                    p.pack_field(o[1], o[2])
                elif o[0] == "int":
                    p.pack_field_int(o[1], o[2])
                elif o[0] == "bytes":
                    p.pack_bytes(list(o[1]), o[2])
                elif o[0] == "ints":
                    p.pack_ints(list(o[1]), o[2])
                elif o[0] in ("str", "strn", "tail"):
                    p.pack_string(o[1])
                elif o[0] == "none":
                    p.pack_object(None)
                else:
                    p.pack_object(build(o[1]))

        def do_unpack(self, p):
            self.got = []
            for o in self.ops:
                if o[0] == "field":
                    r = p.unpack_field(o[2])
                elif o[0] == "int":
                    r = p.unpack_field_int(o[2])
                elif o[0] in ("bytes", "ints"):
                    r = [(0x5A if o[0] == "bytes" else 0x5AC3F00F)] * len(o[1])
                    (p.unpack_bytes if o[0] == "bytes" else p.unpack_ints)(r, o[2])
                elif o[0] in ("str", "tail"):
                    r = p.unpack_string()
                elif o[0] == "strn":
                    r = p.unpack_string(len(o[1].encode()))
                elif o[0] == "none":
                    r = None
                    p.unpack_object(None)
                else:
                    r = build(o[1], True)
                    p.unpack_object(r)
                self.got.append(r)

    NOPACK = {f[0]: f[2] for c in cl for f in c["fields"]}
    NOPACK.update({"h%d" % i: False for i in K})

    def build(t, other=False):
        o = K[t["c"]]("o")
        for k, v in t["v"].items():
            if isinstance(v, dict):
                setattr(o, k, build(v, other))
            elif v is None:
                setattr(o, k, "zz")
            elif other:
                setattr(o, k, "other" if isinstance(v, str) else v ^ 0x1234)
            else:
                setattr(o, k, v)
        return o

    # reference encoder
    bits = []
    st = {"items": 0, "odd": 0}

    def num(v, n):
        b = [(v >> i) & 1 for i in range(n)]
        bits.extend(reversed(b) if big else b)
        st["items"] += 1
        st["odd"] += n % 8 != 0

    def string(s):
        for ch in s.encode():
            num(ch, 8)
        if meta:
            num(0, 8)
        st["odd"] += 1

    def head(nonnull):
        if meta:
            bits.extend([1 if nonnull else 0, 0, 0, 0])

    def enc(t, top):
        if not top:
            head(True)
            st["odd"] += 1
        for f in (fields(cl, t["c"]) if t["c"] >= 0 else []):
            v = t["v"][f[0]]
            if f[2]:
                continue
            if f[1] == "obj":
                enc(v, False)
            elif f[1] == "str":
                string(v)
            else:
                num(v, 32)
        for h, w in (hooks(cl, t["c"]) if t["c"] >= 0 else []):
            num(t["v"][h], w)

    def join(a, w):
        return sum(x << (i * w) for i, x in enumerate(a))

    ops = list(case["ops"])
    if case["tail"] is not None:
        ops.append(["tail", case["tail"]])
    enc(case["t"], False)
    for o in ops:
        if o[0] in ("field", "int"):
            num(o[1], o[2])
        elif o[0] in ("bytes", "ints"):
            w = 8 if o[0] == "bytes" else 32
            num(join(o[1], w), len(o[1]) * w if o[2] < 0 else o[2])
            st["odd"] += 1
        elif o[0] in ("str", "strn", "tail"):
            string(o[1])
        elif o[0] == "none":
            head(False)
        else:
            enc(o[1], False)

    # the tree travels as the first object of the top one
    all_ops = [["obj", case["t"]]] + ops

    def packer():
        p = UVMPacker()
        p.big_endian = int(big)
        p.use_metadata = int(meta)
        return p
    a, b = Top("a"), Top("b")
    a.ops = b.ops = all_ops
    n = len(bits)
    word = [0, 8, 32][case["via"]]

    def words(w):
        out = []
        for i in range(0, n, w):
            c = bits[i:i + w]
            c += [0] * (w - len(c))
            out.append(sum(x << (w - 1 - j if big else j) for j, x in enumerate(c)))
        return out
    p = packer()
    if word == 0:
        size, stream = a.pack(p)
        eq(stream, sum(x << i for i, x in enumerate(bits)), "packed bits")
    else:
        stream = []
        size = (a.pack_bytes if word == 8 else a.pack_ints)(stream, p)
        eq(stream, words(word), "packed %d-bit words" % word)
    eq(size, n, "packed size")
    eq(p.get_packed_size(), n, "get_packed_size")
    eq(p.get_bytes(), words(8), "get_bytes")
    eq(p.get_ints(), words(32), "get_ints")
    eq(p.get_bits(), sum(x << i for i, x in enumerate(bits)), "get_bits")
    eq([p.get_bit(i) for i in range(n)], bits, "get_bit")
    rep.none_bad("from pack")

    q = packer()
    got = [b.unpack, b.unpack_bytes, b.unpack_ints][case["via"]](stream, q)
    waste = (-n) % (word or 1)
    # a null-terminated string at the end also takes a terminator that is there
    if case["tail"] is None:
        eq(got, n, "bits consumed by unpack")

    def same(o, t, what):
        for k, v in t["v"].items():
            g_ = getattr(o, k)
            if isinstance(v, dict):
                if not NOPACK[k]:
                    same(g_, v, what + "." + k)
            elif NOPACK[k]:
                eq(g_, "zz" if v is None else "other" if isinstance(v, str) else v ^ 0x1234, what + "." + k + " (UVM_NOPACK)")
            else:
                check(type(g_) is type(v) and g_ == v, "%s.%s: got %r, expected %r", what, k, g_, v)
    eq(len(b.got), len(all_ops), "items unpacked")
    for r, o in zip(b.got, all_ops):
        if o[0] in ("field", "int"):
            eq(r, o[1] & ((1 << o[2]) - 1), "unpacked " + repr(o))
        elif o[0] in ("bytes", "ints"):
            w = 8 if o[0] == "bytes" else 32
            tot = len(o[1]) * w
            sz = tot if o[2] < 0 else o[2]
            keep = join([0x5A if w == 8 else 0x5AC3F00F] * len(o[1]), w)
            m = (1 << sz) - 1
            want = (join(o[1], w) & m) | (keep & ~m)
            eq(join(r, w), want, "unpacked " + repr(o))
        elif o[0] in ("str", "strn", "tail"):
            eq(r, o[1], "unpacked string")
        elif o[0] == "obj":
            same(r, o[1], "unpacked object")
    bad = [m for m in rep.msgs if m[0] >= 1]
    if word == 0 or waste:
        bad = [m for m in bad if m[1] != "BDUNPK"]   # padding of the last word is left over
    check(not bad, "unpack reported %r", bad[:2])

    # asking for more than there is
    rep.msgs.clear()
    r = packer()
    r.put_bytes(words(8))
    total = 8 * len(words(8))
    k = max(0, total - case["over"] + 1)
    r.unpack_field(k)
    eq(len(rep.errors()), 0, "errors for available bits")
    r.unpack_field(total - k + 1)
    check(any(m[1] == "PCKSZ" for m in rep.errors()), "no error for unpacking %d of %d available bits", total - k + 1, total - k)
    rep.msgs.clear()
    # loading a stream starts over
    r.put_ints(words(32))
    eq(r.unpack_field(min(n, 17)), sum(x << (min(n, 17) - 1 - i if big else i) for i, x in enumerate(bits[:17])), "first bits of a stream loaded into a used packer")
    rep.none_bad("from unpacking a stream loaded into a used packer")
    before = packer()
    before.pack_bytes([1, 2], 17)
    before.pack_ints([1], 33)
    eq(len([m for m in rep.errors() if "BAD_SIZE" in m[1]]), 2, "errors for a size beyond the array")
    before.set_packed_size()
    eq(before.get_packed_size(), 0, "bits packed by a rejected call")
    return {"nontrivial": st["items"] >= 3 and st["odd"] > 0, "bits": n, "items": st["items"]}
