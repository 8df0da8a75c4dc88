"""C17: security policies and checks (spec/Policy)."""
from . import check

DEFS = """## Definition
A User has:
    a name, which is Text.
    a role, which is Text.
    a level, which is Int.
    an active, which is Bool.

A Document has:
    an author, which is Text.
    a level, which is Int.
    an owner, which is User.

A Folder has:
    an author, which is Text.
    a level, which is Int.

"""


def value(v):
    k, x = v
    return '"%s"' % x if k == "text" else str(x).lower() if k == "bool" else str(x)


def atom(a, subj, obj):
    if a[0] == "lit":
        return "the %s's %s equals %s" % (subj, a[1], value(a[2]))
    if a[0] == "pred":
        return "the %s is %s" % (subj, a[1])
    if a[0] == "same":
        return "the %s's %s equals the %s's %s" % (subj, a[1], obj, a[2])
    return "the %s equals the %s's %s" % (subj, obj, a[1])


def condition(c, subj, obj, lines):
    xs = [atom(a, subj, obj) for a in c["atoms"]]
    if not lines:
        return " if " + (" %s " % c["op"]).join(xs) + "."
    return " if:\n" + (", %s\n" % c["op"]).join("    T" + x[1:] for x in xs) + "."


def policy(p, i):
    out = []
    for k, d in enumerate(p["preds"]):
        out.append("A %s is %s" % (d["subject"], d["name"]) + condition(d["cond"], d["subject"].lower(), None, (i + k) % 3 == 0))
    for k, d in enumerate(p["caps"]):
        out.append("A %s can %s the %s" % (d["subject"], d["name"], d["object"]) + condition(d["cond"], "user", d["object"].lower(), (i + k) % 2 == 0))
    return "## Policy\n" + ("\n\n" if i % 2 else "\n").join(out) + "\n\n"


def new(v, owner=None):
    f = v["fields"]
    ks = ["name", "role", "level", "active"] if v["type"] == "User" else ["author", "level"]
    t = " and ".join("%s %s" % (k, value(f[k])) for k in ks)
    return "a new %s with %s%s" % (v["type"], t, " and owner %s" % owner if owner else "")


def steps(ss, ind):
    pad, out = "    " * ind, []
    for s in ss:
        k = s[0]
        if k == "show":
            out.append("Show %d." % s[1])
        elif k == "is":
            out.append("Check that the %s is %s." % (s[1], s[2]))
        elif k == "can":
            out.append("Check that the %s can %s the %s." % (s[1], s[2], s[3]))
        elif k == "set":
            out.append("Set %s's %s to %s." % (s[1], s[2], value(s[3])))
        elif k == "put":
            out.append("Set %s to %s." % (s[1], new(s[2])))
        elif k == "copy":
            out.append("Set %s to %s." % (s[1], s[2]))
        elif k == "count":
            out.append("Set %s's level to i." % s[1])
        elif k == "when":
            out.append("If %s's level equals %d:\n" % (s[1], s[2]) + steps(s[3], ind + 1))
        elif k == "loop":
            out.append("Repeat for i from 1 to %d:\n" % s[1] + steps(s[2], ind + 1))
        elif k == "call":
            out.append("attempt%d(%s, %s)." % (s[1], s[2], s[3]))
    return "\n".join(pad + o for o in out)


def source(g, i):
    def let(x, v, owner=None):
        return "Let mutable %s be %s." % (x, new(v, owner))
    e = g["env"]
    s = DEFS + policy(g["pol"], i)
    for k, f in enumerate(g["funs"]):
        s += "## To attempt%d (a: User, b: Document):\n%s\n\n" % (k + 1, steps(f, 1))
    s += "## Main\n" + "\n".join([let("u", e["u"]), let("v", e["v"]), let("w", e["w"]), let("d", e["d"], "u"), let("e", e["e"], "v"), let("f", e["f"]), "Let k be 7."])
    return s + "\n" + steps(g["steps"], 0) + "\n"


@check("C17")
def c17(c):
    h = c.build("lang")
    c.model_check("Policy", "PolicyMC")
    c.tlc("Policy", "PolicyMC", "PolicyWrong", ok=(12,))
    gen = c.generate("Policy", "PolicyGen", c.pick(12, 120), depth=51)
    cases = [{"id": i + 1, "src": source(g, i), "prog": g, "bg": i % 5 == 0} for i, g in enumerate(gen)]
    tr = c.run_split(h, ["prog"], cases)
    c.judge("Policy", "PolicyTrace", tr)
    engines, stopped = {}, 0
    for t in tr:
        for r in t["runs"]:
            for b in r["by"]:
                engines[b] = engines.get(b, 0) + 1
        stopped += any(r["failed"] for r in t["runs"])
    c.extra.update(engines=engines, programs_stopped_by_a_check=stopped)
    for x, t in list(zip(cases, tr))[:5]:
        c.sample({"program": x["src"][len(DEFS):], "runs": t["runs"]})
    return c.finish(signature=lambda r: str((r.get("detail") or {}).get("why") or r["id"]))
