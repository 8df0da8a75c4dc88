"""C07, C08: journalled state (spec/Journal); C09: file storage (spec/Vfs); C10: relay (spec/Relay)."""
import os, shutil, tempfile
from . import check


def sig(r):
    d = r.get("detail") or {}
    return str(d.get("why")) if d else r["id"]


def controls(c):
    """The two designs that lose data are refuted by the model checker."""
    for cfg in ("JournalNoLock", "JournalNoCut"):
        c.tlc("Journal", "JournalMC", cfg, ok=(12,))


def journal(c, mode, num, salt=0):
    h = c.build("sys")
    gen = c.generate("Journal", "JournalGen", num, env={"MODE": mode}, salt=salt)
    tr = c.run(h, ["journal"], gen, timeout=500)
    c.judge("Journal", "JournalTrace", tr)
    ev = {}
    for t in tr:
        for e in t["ev"]:
            ev[e["e"]] = ev.get(e["e"], 0) + 1
    c.extra["events"] = ev
    for t in tr[:3]:
        c.sample({"id": t["id"], "first_events": t["ev"][:6]})


@check("C07")
def c07(c):
    c.model_check("Journal", "JournalMC")
    controls(c)
    journal(c, "serial", c.pick(3000, 30000))
    return c.finish(signature=sig)


@check("C08")
def c08(c):
    c.model_check("Journal", "JournalMC")
    controls(c)
    journal(c, "conc", c.pick(4000, 40000), salt=1)
    return c.finish(signature=sig)


@check("C09")
def c09(c):
    h = c.build("sys")
    c.model_check("Vfs", "VfsMC")
    gen = c.generate("Vfs", "VfsGen", c.pick(1500, 12000))
    par = c.generate("Vfs", "RegGen", c.pick(200, 2000), salt=1)
    # the harness works as an unprivileged user, which must be able to reach its directory
    d = tempfile.mkdtemp(prefix="vfs", dir="/tmp")
    os.chmod(d, 0o755)
    try:
        tr = c.run(h, ["files", os.path.join(d, "s")], gen, timeout=400)
        tp = c.run(h, ["files-par", os.path.join(d, "p")], par, timeout=400)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.judge("Vfs", "VfsTrace", tr)
    c.judge("Vfs", "RegTrace", tp)
    for t in tr[:2] + tp[:1]:
        c.sample({"id": t["id"], "first_events": t["ev"][:2]})
    return c.finish(signature=sig)


@check("C10")
def c10(c):
    h = c.build("sys")
    c.model_check("Relay", "RelayMC" if c.quick else "RelayMC2")
    gen = c.generate("Relay", "RelayGen", c.pick(2500, 20000))
    tr = c.run(h, ["relay"], gen, timeout=600)
    if len(tr) < len(gen) and not c.rejects:
        c.reject("missing", "%d of %d relay runs reported nothing" % (len(gen) - len(tr), len(gen)))
    c.judge("Relay", "RelayTrace", tr)
    for t in tr[:3]:
        c.sample({"id": t["id"], "ops": len(t["h"]), "events": [len(g) for g in t["got"]]})
    return c.finish(signature=sig)
