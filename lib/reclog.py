"""The text of a transaction database against the records a model expects."""
import re

from util import check, eq


def tm(t):
    return "\0%d\0" % t           # a time, however many decimals it is shown with


def text_of(p):
    s = p.split("\0")
    return "".join(re.escape(q) if n % 2 == 0 else q + r"(?:\.0+)?" for n, q in enumerate(s))


class Log:
    """The expected text: lines made of text and handle references."""

    def __init__(self):
        self.lines = []
        self.ids = {}

    def add(self, *parts):
        self.lines.append(parts)

    def compare(self, text):
        got = [x for x in text.split("\n") if x]
        for i, parts in enumerate(self.lines):
            check(i < len(got), "record %d is missing from the database: %r", i, parts)
            pat = "".join(r"(\d+)" if isinstance(p, tuple) else text_of(p) for p in parts)
            m = re.fullmatch(pat, got[i].strip())
            check(m is not None, "record %d: %r expected, the database has %r", i, parts, got[i].strip())
            for ref, v in zip([p for p in parts if isinstance(p, tuple)], m.groups()):
                v = int(v)
                if ref not in self.ids:
                    check(v != 0 and v not in self.ids.values(), "record %d: handle %d of %r is not new", i, v, ref)
                    self.ids[ref] = v
                eq(v, self.ids[ref], "record %d: handle of %r" % (i, ref))
        check(len(got) == len(self.lines), "unexpected record %r", got[len(self.lines):][:1])
