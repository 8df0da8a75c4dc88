"""C18: satisfiability (spec/Sat). C19: reachability in transition systems (spec/Reach)."""
from . import check


@check("C18")
def c18(c):
    h = c.build("proof")
    c.model_check("Sat", "SatMC")
    c.model_check("Sat", "SatMC", c.pick("SatMC3", "SatLong"))
    c.tlc("Sat", "SatMC", "SatWrong", ok=(12,))
    gen = c.generate("Sat", "SatGen", c.pick(9, 120), depth=51)
    for i, g in enumerate(gen):
        g["id"] = i + 1
    tr = c.run_split(h, ["sat"], gen)
    c.judge("Sat", "SatTrace", tr)
    kinds, routes, said = {}, {}, {}
    for t in tr:
        kinds[t["kind"]] = kinds.get(t["kind"], 0) + 1
        for r in t["via"]:
            routes[r] = routes.get(r, 0) + 1
        for a in t["ans"]:
            k = a["by"] + " " + a["ans"]
            said[k] = said.get(k, 0) + 1
    c.extra.update(kinds=kinds, routes=routes, answers=said, certificates=sum(len(t["cert"]) for t in tr))
    for t in tr[:6]:
        c.sample({"clauses": t["f"], "answers": [[a["by"], a["ans"]] for a in t["ans"][:12]]})
    return c.finish(signature=lambda r: str((r.get("detail") or {}).get("why") or r["id"]))


@check("C19")
def c19(c):
    h = c.build("reach")
    c.model_check("Reach", "ReachMC", c.pick("ReachMC", "ReachLong"))
    c.tlc("Reach", "ReachMC", "ReachWrong", ok=(12,))
    gen = c.generate("Reach", "ReachGen", c.pick(60, 500), depth=51)
    for i, g in enumerate(gen):
        g["id"] = i + 1
        g["deep"] = i % c.pick(40, 8) == 0
    tr = c.run_split(h, ["reach"], gen, parts=8)
    c.judge("Reach", "ReachTrace", tr)
    kinds, said, deepest = {}, {}, 0
    for t in tr:
        kinds[t["m"]["kind"]] = kinds.get(t["m"]["kind"], 0) + 1
        for a in t["search"] + t["engines"]:
            k = a["by"] + " " + a["ans"]
            said[k] = said.get(k, 0) + 1
            if a["ans"] == "found":
                deepest = max(deepest, a["k"])
    c.extra.update(kinds=kinds, answers=said, deepest_counterexample=deepest)
    for t in tr[:6]:
        c.sample({"system": t["m"], "answers": [[a["by"], a["ans"]] for a in t["search"] + t["engines"]]})
    return c.finish(signature=lambda r: str((r.get("detail") or {}).get("why") or r["id"]))
