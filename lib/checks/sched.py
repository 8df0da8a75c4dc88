"""C01, C02, C03: the deterministic task runtime (spec/Sched)."""
import json
from . import check

# events that a mutation of channel behaviour shows up in, as opposed to life-cycle ones
CHAN_OPS = {"send", "trysend", "recv", "tryrecv", "close", "newchan"}


def programs(c, num):
    progs = c.generate("Sched", "SchedGen", num)
    return progs


def runs(c):
    """recorded runs of the real scheduler for generated programs"""
    h = c.build("rt")
    progs = programs(c, c.pick(260, 2500))
    tr = c.run(h, ["trace", c.tseed], progs, timeout=600)
    ops = {}
    for t in tr:
        for e in t["ev"]:
            if e["e"] == "poll":
                k = e["op"]["o"] + ("/parked" if e["snap"]["t"][e["t"]] == e["op"]["o"] else "")
            else:
                k = e["e"]
            ops[k] = ops.get(k, 0) + 1
    c.extra["events"] = ops
    for t in tr[:3]:
        c.sample({"id": t["id"], "chans": t["chans"], "first_events": t["ev"][:4]})
    return tr


def sched_check(c):
    c.model_check("Sched", "SchedMC", "SchedMC" if c.quick else "SchedMC5")
    tr = runs(c)
    c.judge("Sched", "SchedTrace", tr)
    return c.finish(assumptions=["scheduler driven through its public API by scripted tasks"])


@check("C01")
def c01(c):
    return sched_check(c)


@check("C02")
def c02(c):
    return sched_check(c)


@check("C03")
def c03(c):
    h = c.build("rt")
    progs = programs(c, c.pick(250, 1500))
    runs = c.run(h, ["replay", c.tseed], progs, timeout=700)
    for r in runs[:3]:
        c.sample({"id": r["id"], "policy": r["policy"], "log": r["groups"][0]["runs"][0]["log"][:4]})
    c.judge("Sched", "Replay", runs)
    # the policies themselves: what may run next is fixed by the specification
    tr = c.run(h, ["trace", c.tseed], progs[: c.pick(80, 400)], timeout=600)
    c.judge("Sched", "SchedTrace", tr)
    return c.finish()
