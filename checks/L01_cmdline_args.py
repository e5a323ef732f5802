import re

from util import *

ID = "L01"
META = {
    "title": "The command line processor finds exactly the matching arguments, in order",
    "statement": "For every simulator command line the command line processor reports all non-empty arguments, all plus arguments and all +UVM/-UVM arguments unchanged and in order. A prefix query returns exactly the arguments beginning with it, a /regular expression/ query exactly those in which it matches anywhere, and the value queries return how many arguments match together with the first, or every, remainder after the prefix. Replacing earlier contents of the output list, no query changes what later ones return.",
    "over": ["inputs", "histories"],
    "quant": "all command lines (options, plusargs, values, repeated, empty and similar arguments), and all sequences of prefix, regular-expression and value queries",
    "why": "The tests look up a few fixed arguments; matching must be exact for every argument text and repetition.",
    "files": ["src/uvm/base/uvm_cmdline_processor.py"],
    "mech": [["UVMCmdlineProcessor.extract_args / get_arg_matches / get_arg_value / get_arg_values", "src/uvm/base/uvm_cmdline_processor.py"]],
    "note": "Random command lines and queries against plain string and re matching.",
}
RULE = "a query matched two or more arguments, and another matched only part of the arguments"
N = (250, 30000)
ASSUMPTIONS = ["regular expressions use the syntax common to re and the regex package"]
STEMS = ["+UVM_", "+uvm_set", "+uvm", "-uvm", "-UVM_X", "+", "-", "", "foo", "+foo", "+bar=", "+UVM_TESTNAME=", "+cfg=", "/", "--x", "+foo="]
TAILS = ["", "", "a", "b", "ab", "=", "=1", "=a,b", "1", "+foo", "+bar=", "a/b", "/", "x.y", " z", "FOO", "T1", "=a=b"]
# The last character of an expression is ignored (known finding): every generated one ends with the "?" of a lazy
# quantifier, which changes no search result.
RES = [r"^\+foo.*?", r"fo{2}o*?", r"foo+?", r"a.b??", r"=.*,.??", r"^[+-]uvm.??", r"(UVM|uvm)_+?", r"b+?", r"ab*?", r"^.$|1+?", r"x\.y+?",
       r"^\+(foo|bar)=.*?", r"[0-9]+?", r"oo=+?", r"/+?", r"^-.*?", r"a|b+?", r"(foo|x)$|zz+?", r"^$|^\+.??"]
FINDINGS = {"regex-last-char": {"argv": ["+foo", "+foo1", "a"], "late": [], "q": [["re", "foo$", ""]]}}


def strategy():
    def arg(g):
        return g.pick(STEMS) + g.pick(TAILS)
    return gen(lambda g: {"argv": g.some(0, 12, lambda: arg(g)), "late": g.some(0, 3, lambda: arg(g)),
                          "q": g.some(2, 14, lambda: [g.pick(["m", "m", "re", "v", "vs"]), g.pick(RES), g.pick(STEMS) + g.pick(TAILS[:10])])}, 150)


def run(case):
    from uvm.base.uvm_cmdline_processor import UVMCmdlineProcessor
    Reports()
    set_args(case["argv"])
    clp = UVMCmdlineProcessor.get_inst()
    check(UVMCmdlineProcessor.get_inst() is clp, "get_inst is not a singleton")
    args = [a for a in case["argv"] if a]
    st = {"queries": 0, "multi": 0, "part": 0}
    used = []
    for i, (k, rx, pre) in enumerate(case["q"]):
        if i == len(case["q"]) // 2 and case["late"]:
            clp.extract_args(list(case["late"]))
            args += [a for a in case["late"] if a]
        if k == "re":
            want = [a for a in args if re.search(rx, a)]
            out = ["stale"] if i % 2 else used
            n = clp.get_arg_matches("/" + rx + "/", out)
        elif k == "m":
            if len(pre) > 2 and pre[0] == "/" and pre[-1] == "/":
                continue
            want = [a for a in args if a.startswith(pre)]
            out = ["stale"] if i % 2 else used
            n = clp.get_arg_matches(pre, out)
        else:
            want = [a[len(pre):] for a in args if a.startswith(pre)]
            if k == "v":
                out = []
                n = clp.get_arg_value(pre, out)
                eq(out, want[:1], "get_arg_value(%r) on %r" % (pre, args))
                out = want
            else:
                out = ["stale"]
                n = clp.get_arg_values(pre, out)
        eq((n, out), (len(want), want), "%s query %r on %r" % (k, rx if k == "re" else pre, args))
        st["queries"] += 1
        st["multi"] += len(want) > 1
        st["part"] += 0 < len(want) < len(args)
        eq(list(clp.get_args()), args, "get_args")
        eq(list(clp.get_plusargs()), [a for a in args if a[0] == "+"], "get_plusargs of %r" % args)
        eq(list(clp.get_uvm_args()), [a for a in args if a[1:4].upper() == "UVM"], "get_uvm_args of %r" % args)
    return {"nontrivial": bool(st["multi"] and st["part"]), **st}
