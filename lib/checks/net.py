"""C11: one-time pads (spec/Pad); C12: framing, shards, chunked files (spec/Frame)."""
import os, shutil, tempfile
from . import check


def sig(r):
    d = r.get("detail") or {}
    return str(d.get("why")) if d else r["id"]


@check("C11")
def c11(c):
    h = c.build("lang")
    c.model_check("Pad", "Pad")
    # writing the ledger only after the record is out reuses pad bytes after a crash
    c.tlc("Pad", "Pad", "PadLate", ok=(12,))
    gen = c.generate("Pad", "PadGen", c.pick(8000, 60000))
    d = tempfile.mkdtemp(prefix="pad", dir="/tmp")
    try:
        tr = c.run(h, ["pad", d], gen, timeout=500)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.judge("Pad", "PadTrace", tr)
    ev = {}
    for t in tr:
        for e in t["ev"]:
            k = e["e"] if e["e"] != "foreign" else e["what"]
            ev[k] = ev.get(k, 0) + 1
    c.extra["events"] = ev
    for t in tr[:3]:
        c.sample({"id": t["id"], "first_events": t["ev"][:6]})
    return c.finish(signature=sig)


@check("C12")
def c12(c):
    lang, sys_ = c.build("lang"), c.build("sys")
    c.model_check("Frame", "FrameMC")
    gen = c.enumerate("Frame", "ShardAll") + c.generate("Frame", "FrameGen", c.pick(6000, 40000))
    for i, g in enumerate(gen):
        g["id"] = i + 1
    tr = c.run(lang, ["frame"], [g for g in gen if g["m"] != "file"], timeout=500)
    d = tempfile.mkdtemp(prefix="sip", dir="/tmp")
    try:
        tr += c.run(sys_, ["sip", d], [g for g in gen if g["m"] == "file"], timeout=500)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.judge("Frame", "FrameTrace", tr)
    c.extra["cases"] = {m: sum(1 for t in tr if t["m"] == m) for m in ("stream", "shard", "file")}
    for m in ("stream", "shard", "file"):
        c.sample({k: (v if not isinstance(v, list) else v[:4]) for k, v in next(t for t in tr if t["m"] == m).items()})
    return c.finish(signature=sig)
