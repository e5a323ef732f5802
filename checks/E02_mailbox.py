from util import *
import chan

ID = "E02"
META = {
    "title": "Mailboxes lose, duplicate and reorder nothing and block exactly when needed",
    "statement": "For every set of processes using a bounded or unbounded UVMMailbox concurrently, items come out in the order they were put, each exactly once, the size bound is never exceeded, peek sees the next item without removing it, and num() is the number of items held. put blocks exactly while the mailbox is full and get/peek exactly while it is empty: no process stays blocked once it could proceed, and the try_ variants succeed exactly when they could.",
    "over": ["histories", "schedules"],
    "quant": "all numbers of producer and consumer processes, sizes, mixes of blocking and non-blocking calls, relative timing including simultaneous calls, and killed waiters",
    "why": "The unit test uses one producer and one consumer; lost wake-ups and races need several blocked processes at once.",
    "files": ["src/uvm/base/uvm_mailbox.py"],
    "mech": [["UVMMailbox put/get/peek/try_*", "src/uvm/base/uvm_mailbox.py"]],
    "note": "Random process sets on a simulated kernel against a queue model; blocking is judged after every time slot.",
}
RULE = "two or more processes were blocked at the same time"
N = (400, 40000)


def strategy():
    return gen(lambda g: {"cap": g.pick([0, 1, 1, 2, 3]), "procs": chan.procs(g), "prog": g.b(1, 3)}, 300)


def run(case):
    from uvm.base.uvm_mailbox import UVMMailbox
    m = UVMMailbox(case["cap"])
    c = chan.Channel(case["procs"], case["cap"], lambda i: m, m.num)
    sim(c.run())
    rest = []
    while m.try_get(rest):
        pass
    eq(rest, c.q, "items left in the mailbox")
    return {"nontrivial": c.st["blocked"] >= 2, "ops": c.st["ops"], "puts": len(c.puts), "gets": len(c.gets)}
