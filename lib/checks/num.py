"""C25: exact numbers (spec/Exact)."""
from . import check


@check("C25")
def c25(c):
    h = c.build("num")
    c.model_check("Exact", "ExactMC")
    gen = c.generate("Exact", "ExactGen", c.pick(60, 600), depth=51)
    for i, g in enumerate(gen):
        g["id"] = i + 1
    tr = c.run(h, ["exact"], gen, timeout=500)
    c.judge("Exact", "ExactTrace", tr)
    kinds = {}
    for t in tr:
        k = t["t"] + " " + t["o"]
        kinds[k] = kinds.get(k, 0) + 1
    c.extra["cases"] = kinds
    for t in tr[:8]:
        c.sample({k: t[k] for k in ("t", "o", "s", "k", "got")})
    return c.finish(signature=lambda r: str((r.get("detail") or {}).get("why") or r["id"]))


@check("C23")
def c23(c):
    h = c.build("num")
    c.model_check("Calendar", "CalendarMC", cfg=c.pick("CalendarMC", "CalendarLong"))
    c.tlc("Calendar", "CalendarMC", "CalendarWrong", ok=(12,))
    gen = c.generate("Calendar", "CalendarGen", c.pick(100, 1000), depth=51)
    for i, g in enumerate(gen):
        g["id"] = i + 1
    tr = c.run(h, ["cal"], gen, timeout=500)
    c.judge("Calendar", "CalendarTrace", tr)
    kinds = {}
    for t in tr:
        kinds[t["o"]] = kinds.get(t["o"], 0) + 1
    c.extra["cases"] = kinds
    for t in tr[:8]:
        c.sample(t)
    return c.finish(signature=lambda r: str((r.get("detail") or {}).get("why") or r["id"]))


@check("C24")
def c24(c):
    h = c.build("num")
    c.model_check("Clock", "ClockMC", c.pick("ClockMC", "ClockLong"))
    c.tlc("Clock", "ClockMC", "ClockWrong", ok=(12,))
    gen = c.enumerate("Clock", "ClockAll") + c.generate("Clock", "ClockGen", c.pick(1500, 20000), depth=19)
    for i, g in enumerate(gen):
        g["id"] = i + 1
    tr = c.run(h, ["clock"], gen, timeout=500)
    c.judge("Clock", "ClockTrace", tr)
    for t in tr[-4:]:
        c.sample({"events": t["h"][:6], "stamps": t["stamp"][:6]})
    return c.finish(signature=lambda r: str((r.get("detail") or {}).get("why") or r["id"]))
