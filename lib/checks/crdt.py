"""C04, C05, C06: replicated data types (spec/Crdt)."""
from . import check

def sig(r):
    d = r.get("detail") or {}
    return "%s/%s" % (d.get("ty"), d.get("law")) if d else r["id"]


def histories(c, num):
    h = c.build("crdt")
    gen = c.generate("Crdt", "CrdtGen", num)
    tr = c.run(h, ["run"], gen, timeout=300)
    kinds = {}
    for t in tr:
        for e in t["ev"]:
            k = t["ty"] + "/" + e["e"]
            kinds[k] = kinds.get(k, 0) + 1
    c.extra["events"] = kinds
    for t in tr[:3]:
        c.sample({"id": t["id"], "first_events": t["ev"][:3]})
    return h, tr


def common(c):
    c.model_check("Crdt", "CrdtMC", "CrdtMC" if c.quick else "CrdtMC2")
    h, tr = histories(c, c.pick(1500, 12000))
    c.judge("Crdt", "CrdtTrace", tr)
    return h


@check("C04")
def c04(c):
    h = common(c)
    # two writes with one timestamp: merged both ways
    tie = c.run(h, ["tie"], [])
    for t in tie:
        if t["ab"] != t["ba"]:
            c.reject("lww-tie", "merging registers with equal timestamps depends on the merge order", detail={"ty": "lww", "law": "tie", "event": t})
    return c.finish(signature=sig)


def elsewhere(c):
    """How remove-wins merges combine in different orders is C04's question."""
    c.rejects = [r for r in c.rejects if sig(r) != "rw/assoc"]


@check("C05")
def c05(c):
    common(c)
    elsewhere(c)
    return c.finish(signature=sig)


@check("C06")
def c06(c):
    h = common(c)
    buf = c.run(h, ["buf"], c.generate("Crdt", "BufGen", c.pick(1500, 10000)), timeout=300)
    c.judge("Crdt", "BufTrace", buf)
    elsewhere(c)
    return c.finish(signature=sig)
