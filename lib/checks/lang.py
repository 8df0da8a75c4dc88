"""C14: programs on every execution engine (spec/Logos)."""
import logos
from . import check


def n(v):
    return {"k": "n", "v": ["I", v]}


def v(x):
    return {"k": "v", "x": x}


def let(x, e):
    return {"k": "let", "x": x, "e": e}


def by_ref(body, more, shown):
    """A program that passes its list v1 by reference to f1."""
    show = [{"k": "show", "e": v(x)} for x in shown]
    return {"fs": [{"ps": [["v1", "L", True], ["v2", "I", False]], "gives": "-", "body": body}],
            "main": [let("v1", {"k": "list", "a": [n(9), n(3), n(6)]})] + more + [{"k": "do", "f": "f1", "a": [v("v1"), n(5)]}] + show}


# the recorded known findings; the generator keeps away from their shape
WITNESSES = {
    "by-ref/alias": by_ref([{"k": "seti", "x": "v1", "i": n(1), "e": v("v2")}], [let("v2", v("v1"))], ["v1", "v2"]),
    "by-ref/shadow": by_ref([{"k": "if", "c": {"k": "bin", "o": ">", "l": v("v2"), "r": n(1)},
                              "a": [let("v1", v("v1")), {"k": "push", "x": "v1", "e": v("v2")}], "b": []}], [], ["v1"]),
}


def sig(r):
    if str(r["id"]) in WITNESSES:
        return str(r["id"])
    d = r.get("detail") or {}
    return str(d.get("why")) if d else r["id"]


@check("C14")
def c14(c):
    h = c.build("lang")
    c.model_check("Logos", "NumMC")
    gen = c.generate("Logos", "LogosGen", c.pick(900, 7000), depth=5)
    gen = [{"id": i, "prog": p} for i, p in WITNESSES.items()] + gen
    for i, g in enumerate(gen):
        g["src"] = logos.source(g["prog"])
        g["bg"] = i % 25 == 0          # also compile in the background while running
    tr = c.run_split(h, ["prog"], gen, timeout=c.pick(150, 500))
    c.judge("Logos", "LogosTrace", tr)
    src = {g["id"]: g["src"] for g in gen}
    for r in c.rejects:
        if r["id"] in src:
            r["source"] = src[r["id"]]
    engines = {}
    for t in tr:
        for g in t["runs"]:
            for e in g["by"]:
                engines[e] = engines.get(e, 0) + 1
    c.extra["programs"] = len(tr)
    c.extra["runs_by_engine"] = engines
    c.extra["programs_that_fail"] = sum(1 for t in tr if t["runs"][0]["failed"])
    for t in tr[:3]:
        c.sample({"id": t["id"], "source": src[t["id"]][:900], "output": t["runs"][0]["out"][:10]})
    return c.finish(signature=sig)
