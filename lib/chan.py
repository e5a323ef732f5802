"""Random multi-process histories over a blocking channel (mailbox, TLM FIFO)."""
from util import *

PUT = ["put", "put", "put", "tryput"]
GET = ["get", "get", "tryget", "peek", "trypeek"]


def procs(g, roles=None, extra=()):
    out = []
    for _ in range(g.i(1, 5)):
        role = g.pick(roles or ["p", "g", "pg"])
        pool = (PUT if "p" in role else []) + (GET if "g" in role else []) + list(extra)
        out.append({"role": role, "steps": [[g.pick([0, 0, 1, 1, 2]), g.pick(pool)] for _ in range(g.i(1, 8))],
                    "kill": g.i(1, 12) if g.b(1, 8) else 0})
    return out


class Channel:
    """api(proc index) -> object with put/get/peek (async) and try_put/try_get/try_peek/..."""

    def __init__(self, spec, cap, api, num=None, full=None, tag=""):
        self.spec, self.cap, self.api, self.num, self.full, self.tag = spec, cap, api, num, full, tag
        self.q, self.puts, self.gets = [], [], []
        self.state, self.op, self.killed = {}, {}, 0
        self.st = {"blocked": 0, "ops": 0, "unblocked": 0}

    def put_done(self, item):
        self.q.append(item)
        self.puts.append(item)
        check(self.cap <= 0 or len(self.q) <= self.cap, "%d items in a channel of size %d", len(self.q), self.cap)

    def get_done(self, item, what):
        check(self.q, "%s returned %r but no item was available", what, item)
        eq(item, self.q[0], what + " item")
        self.gets.append(self.q.pop(0))

    def consistent(self, what):
        if self.num:
            eq(self.num(), len(self.q), what + ": number of items")
        if self.full:
            self.full(self.q, what)

    async def process(self, i):
        from cocotb.triggers import Timer
        p, a = self.spec[i], self.api(i)
        for j, (dt, op) in enumerate(p["steps"]):
            if dt:
                await Timer(dt * 1000, "ps")
            self.st["ops"] += 1
            what = "process %d step %d %s" % (i, j, op)
            self.op[i] = op
            if op == "put":
                item = self.tag + "%d.%d" % (i, j)
                self.state[i] = "put"
                await a.put(item)
                self.state[i] = ""
                self.put_done(item)
            elif op == "tryput":
                item = self.tag + "%d.%d" % (i, j)
                room = self.cap <= 0 or len(self.q) < self.cap
                eq(bool(a.try_put(item)), room, what)
                if room:
                    self.put_done(item)
            elif op in ("get", "peek"):
                self.state[i] = "get"
                old = ["old"] * ((i + j) % 3)        # the item is appended to what the list holds
                out = list(old)
                r = await (a.get(out) if op == "get" else a.peek(out))
                self.state[i] = ""
                eq(len(out), len(old) + 1, what + ": items output")
                out = out[len(old):]
                if r is not None:
                    eq(r, out[0], what + ": returned and output item")
                if op == "get":
                    self.get_done(out[0], what)
                else:
                    check(self.q and self.q[0] == out[0], "%s saw %r, the front is %r", what, out[0], self.q[:1])
            elif op in ("tryget", "trypeek"):
                old = ["old"] * ((i + j) % 3)
                out = list(old)
                have = bool(self.q)
                eq(bool(a.try_get(out) if op == "tryget" else a.try_peek(out)), have, what)
                eq(len(out), len(old) + int(have), what + ": items output")
                out = out[len(old):]
                if have and op == "tryget":
                    self.get_done(out[0], what)
                elif have:
                    eq(out[0], self.q[0], what + " item")
            else:
                self.extra(op, a, what)
            self.consistent(what)
        self.state[i] = "done"

    async def run(self):
        import cocotb
        from cocotb.triggers import Timer
        tasks = {}
        for i in range(len(self.spec)):
            tasks[i] = cocotb.start_soon(self.process(i))
        last = 2 * max(len(p["steps"]) for p in self.spec) + 4
        await Timer(500, "ps")
        for slot in range(last):
            gets = [i for i in tasks if self.state.get(i) == "get"]
            puts = [i for i in tasks if self.state.get(i) == "put"]
            self.st["blocked"] = max(self.st["blocked"], len(gets) + len(puts))
            check(not (gets and self.q), "slot %d: processes %r wait for an item although %r is there", slot, gets, self.q)
            check(not (puts and (self.cap <= 0 or len(self.q) < self.cap)),
                  "slot %d: processes %r wait for room although only %d of %d items are there", slot, puts, len(self.q), self.cap)
            self.consistent("slot %d" % slot)
            for i, p in enumerate(self.spec):
                if p["kill"] == slot and slot and self.state.get(i) in ("get", "put"):
                    tasks[i].kill()
                    self.killed += 1
                    self.state[i] = "killed"
            await Timer(1000, "ps")
        for i, t in tasks.items():
            if self.state.get(i) in ("get", "put"):
                t.kill()
