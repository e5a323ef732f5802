"""A pure-Python stand-in for the HDL simulator below cocotb.

cocotb talks to a simulator through the C extension ``cocotb.simulator``.  This
module installs a small Python module under that name *before* cocotb is
imported, so that the real, unmodified cocotb ``Scheduler`` and triggers run
UVM-python code without any HDL simulator.  Time advances only through the event
queue kept here, so every run is deterministic, and "no event left although the
test has not finished" is an exact deadlock detector rather than a timeout.

Regions, per time step: timed callbacks -> ReadWrite callbacks (repeated until no
more) -> ReadOnly callbacks -> next time step.
"""
import heapq
import itertools
import sys
import types
import warnings


class _Handle:
    __slots__ = ("cb", "arg", "alive")

    def __init__(self, cb, arg):
        self.cb, self.arg, self.alive = cb, arg, True

    def deregister(self):
        self.alive = False


class Kernel:
    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0
        self.heap = []
        self.seq = itertools.count()
        self.rw, self.ro, self.nts = [], [], []
        self.events = 0

    # -- the simulator API used by cocotb -------------------------------------
    def register_timed_callback(self, steps, cb, arg):
        h = _Handle(cb, arg)
        heapq.heappush(self.heap, (self.now + int(steps), next(self.seq), h))
        return h

    def register_rwsynch_callback(self, cb, arg):
        h = _Handle(cb, arg)
        self.rw.append(h)
        return h

    def register_readonly_callback(self, cb, arg):
        h = _Handle(cb, arg)
        self.ro.append(h)
        return h

    def register_nextstep_callback(self, cb, arg):
        h = _Handle(cb, arg)
        self.nts.append(h)
        return h

    # -- the loop ---------------------------------------------------------------
    def _fire(self, h):
        if h.alive:
            h.alive = False
            self.events += 1
            h.cb(h.arg)

    def step(self):
        """Run the next callback; False when nothing is left."""
        while self.rw and not self.rw[0].alive:
            self.rw.pop(0)
        if self.heap and self.heap[0][0] == self.now:
            self._fire(heapq.heappop(self.heap)[2])
            return True
        if self.rw:
            self._fire(self.rw.pop(0))
            return True
        while self.ro and not self.ro[0].alive:
            self.ro.pop(0)
        if self.ro:
            self._fire(self.ro.pop(0))
            return True
        while self.heap and not self.heap[0][2].alive:
            heapq.heappop(self.heap)
        if self.heap:
            self.now = self.heap[0][0]
            nts, self.nts = self.nts, []
            for h in nts:
                self._fire(h)
            return True
        return False


KERNEL = Kernel()


def install():
    if "cocotb" in sys.modules and not hasattr(sys.modules.get("cocotb.simulator"), "_vkernel"):
        raise RuntimeError("cocotb imported before the simulation kernel")
    sim = types.ModuleType("cocotb.simulator")
    sim._vkernel = KERNEL
    for i, n in enumerate("UNKNOWN MODULE STRUCTURE REG NET NETARRAY REAL INTEGER ENUM STRING GENARRAY "
                          "PACKAGE OBJECTS DRIVERS LOADS".split()):
        setattr(sim, n, i)
    sim.register_timed_callback = KERNEL.register_timed_callback
    sim.register_rwsynch_callback = KERNEL.register_rwsynch_callback
    sim.register_readonly_callback = KERNEL.register_readonly_callback
    sim.register_nextstep_callback = KERNEL.register_nextstep_callback
    sim.register_value_change_callback = lambda *a: _Handle(None, None)
    sim.get_sim_time = lambda: (KERNEL.now >> 32, KERNEL.now & 0xFFFFFFFF)
    sim.get_precision = lambda: -12
    sim.is_running = lambda: True
    sim.stop_simulator = lambda: None
    sim.get_root_handle = lambda *a: None
    sim.log_level = lambda *a: None
    sim.get_simulator_product = lambda: "VKernel"
    sim.get_simulator_version = lambda: "1"
    sys.modules["cocotb.simulator"] = sim
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import cocotb
    cocotb.simulator = sim
    cocotb.SIM_NAME = "VKernel"
    cocotb.SIM_VERSION = "1"
    cocotb.argv = []
    cocotb.plusargs = {}
    cocotb.log = logging.getLogger("cocotb")
    warnings.filterwarnings("ignore")


class Deadlock(Exception):
    pass


class EventLimit(Exception):
    pass


def now():
    return KERNEL.now


def run(coro, max_events=200000, until=None):
    """Run the coroutine as a cocotb test, to its end.

    Returns its value; re-raises its exception (or that of a background task).
    Raises Deadlock when no simulation event is left and it has not finished,
    EventLimit when more than max_events callbacks were needed.
    """
    import cocotb
    from cocotb.scheduler import Scheduler
    from cocotb.task import _RunningTest
    KERNEL.reset()
    done = []
    sched = Scheduler(handle_result=done.append)
    cocotb.scheduler = sched

    async def main():
        return await coro

    class _Func:
        __doc__ = None
        __module__ = __name__
        __name__ = "verif_case"

    class _Parent:
        _func = _Func
        __name__ = "verif_case"
    task = _RunningTest(main(), _Parent)
    sched._add_test(task)
    while not done:
        if not KERNEL.step():
            if done:
                break
            raise Deadlock("no simulation event left at t=%d but the run has not finished" % KERNEL.now)
        if KERNEL.events > max_events:
            raise EventLimit("more than %d simulation events (t=%d)" % (max_events, KERNEL.now))
        if until is not None and KERNEL.now > until:
            raise Deadlock("simulation time %d passed the horizon %d" % (KERNEL.now, until))
    return task._outcome.get()
