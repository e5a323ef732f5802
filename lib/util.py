"""Helpers shared by the checks (test-side only)."""
import io
import sys
import simkernel
from harness import Violation, check, eq  # noqa


def glob_match(pat, s):
    """Reference glob matcher: '*' any run, '?' any one character, the rest literal."""
    m = {(0, 0)}
    i, j = 0, 0
    star, mark = -1, 0
    while j < len(s):
        if i < len(pat) and pat[i] == "*":
            star, mark = i, j
            i += 1
        elif i < len(pat) and (pat[i] == "?" or pat[i] == s[j]):
            i += 1
            j += 1
        elif star >= 0:
            mark += 1
            i, j = star + 1, mark
        else:
            return False
    while i < len(pat) and pat[i] == "*":
        i += 1
    return i == len(pat)


def sim(coro, **kw):
    return simkernel.run(coro, **kw)


class Capture:
    """Collects what is printed to sys.stdout (UVM prints its messages there)."""

    def __enter__(self):
        self.old, self.buf = sys.stdout, io.StringIO()
        sys.stdout = self.buf
        return self

    def __exit__(self, *a):
        sys.stdout = self.old
        self.text = self.buf.getvalue()


class Reports:
    """Records every report that reaches the report server, as (severity, id, message).

    Installed as a user-defined report server (the documented extension point), so
    nothing of uvm is patched.  Messages are not printed."""

    def __init__(self):
        from uvm.base.uvm_report_server import UVMReportServer
        outer = self
        self.msgs = []

        class _Server(UVMReportServer):
            def execute_report_message(self, report_message, composed_message):
                outer.msgs.append((int(report_message.get_severity()), report_message.get_id(),
                                   str(report_message.get_message())))
                super().execute_report_message(report_message, composed_message)
        self.server = _Server("verif_server")
        self.server.set_logger(lambda s: None)
        UVMReportServer.set_server(self.server)

    def of(self, sev, id_=None):
        return [m for m in self.msgs if m[0] == sev and (id_ is None or m[1] == id_)]

    def errors(self):
        return [m for m in self.msgs if m[0] >= 2]

    def warnings(self):
        return [m for m in self.msgs if m[0] == 1]

    def none_bad(self, what=""):
        bad = [m for m in self.msgs if m[0] >= 1]
        check(not bad, "unexpected report(s) %s: %r", what, bad[:3])


def reset_time():
    simkernel.KERNEL.reset()


def comp_class(name, members, base=None):
    """A UVM component class with the given members, registered with the factory."""
    from uvm import UVMComponent, UVMTest, uvm_component_utils
    base = base or UVMComponent
    k = type(name, (base,), dict(members))
    uvm_component_utils(k)
    return k


def uvm_run(top, extra=None, **kw):
    """Run a whole UVM test with the component class `top` as the test."""
    from uvm import run_test

    async def go():
        await run_test(top.__name__)
        if extra is not None:
            await extra()
    return simkernel.run(go(), **kw)


class G:
    """Decodes a byte string drawn by Hypothesis into structured choices.

    Every choice comes from the bytes; zero bytes (also used past the end) mean the
    first / smallest choice, so Hypothesis' shrinking of the bytes shrinks the case."""

    def __init__(self, data):
        self.d, self.p = data, 0

    def _raw(self, n):
        r = self.d[self.p:self.p + n]
        self.p += n
        return int.from_bytes(r + b"\0" * (n - len(r)), "big")

    def i(self, lo, hi):
        span = hi - lo + 1
        if span <= 1:
            return lo
        n = 1 if span <= 16 else (span.bit_length() + 7) // 8 + 1
        return lo + self._raw(n) % span

    def b(self, num=1, den=2):
        """True with probability num/den (False when shrunk)."""
        return den - 1 - self._raw(1) % den < num if den <= 32 else self.i(0, den - 1) >= den - num

    def pick(self, seq):
        return seq[self.i(0, len(seq) - 1)]

    def some(self, lo, hi, fn):
        """A list of lo..hi items."""
        return [fn() for _ in range(self.i(lo, hi))]

    def subset(self, seq, lo=0):
        out = [x for x in seq if self.b()]
        return out if len(out) >= lo else list(seq[:lo])

    def perm(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.i(0, len(seq) - 1)))
        return out

    def bits(self, n):
        """An n-bit value, biased to the interesting ones."""
        k = self.i(0, 7)
        top = (1 << n) - 1
        if k == 0:
            return 0
        if k == 1:
            return top
        if k == 2:
            return 1 << self.i(0, n - 1)
        if k == 3:
            return self.i(0, min(top, 255))
        return self._raw((n + 7) // 8) & top


def gen(fn, nbytes=512):
    from hypothesis import strategies as st
    return st.binary(min_size=nbytes, max_size=nbytes).map(lambda data: fn(G(data)))


def set_args(argv):
    """Set the simulator command line uvm sees."""
    import cocotb
    from uvm.base.uvm_cmdline_processor import UVMCmdlineProcessor
    cocotb.argv = list(argv)
    cocotb.plusargs = {}
    for a in argv:
        if a.startswith("+"):
            k, _, v = a[1:].partition("=")
            cocotb.plusargs[k] = v or True
    UVMCmdlineProcessor.m_inst = None


def fresh_uvm(argv):
    """Import uvm anew, as in a simulation started with these command line arguments."""
    import cocotb
    for k in [k for k in sys.modules if k == "uvm" or k.startswith("uvm.")]:
        del sys.modules[k]
    cocotb.argv = list(argv)
    cocotb.plusargs = {}
    for a in argv:
        if a.startswith("+"):
            k, _, v = a[1:].partition("=")
            cocotb.plusargs[k] = v or True
    with Capture() as c:
        import uvm  # noqa
        import uvm.reg  # noqa
    return c.text
