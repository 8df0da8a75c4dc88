"""Source text of programs given as syntax trees (spec/Logos)."""

PREC = {"or": 1, "and": 2, "==": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4,
        "|": 5, "^": 6, "&": 7, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10, "//": 10, "**": 11}
TYPES = {"I": "Int", "L": "Seq of Int", "B": "Bool", "T": "Text", "P": "Point", "M": "Map of Int to Int", "S": "Set of Int"}


def num(v):
    if v[0] == "I":
        return str(v[1])
    d = v[2]
    return ("-" if v[1] else "") + str(d[-1]) + "".join("%04d" % x for x in reversed(d[:-1]))


def atom(e):
    """Parenthesised unless it is a name or a plain literal."""
    s = expr(e)
    return s if e["k"] in ("v", "b", "t", "list", "cat") or (e["k"] == "n" and not s.startswith("-")) else "(%s)" % s


def expr(e):
    k = e["k"]
    if k == "n":
        return num(e["v"])
    if k == "b":
        return "true" if e["v"] else "false"
    if k == "t":
        return '"%s"' % e["v"]
    if k == "v":
        return e["x"]
    if k == "copy":
        return "copy of " + atom(e["e"])
    if k == "bin":
        return "%s %s %s" % (atom(e["l"]), e["o"], atom(e["r"]))
    if k == "not":
        return "not " + atom(e["e"])
    if k == "neg":
        return "0 - " + atom(e["e"])
    if k == "item":
        return "item %s of %s" % (atom(e["i"]), atom(e["e"]))
    if k == "slice":
        return "items %s through %s of %s" % (atom(e["i"]), atom(e["j"]), atom(e["e"]))
    if k == "len":
        return "length of " + atom(e["e"])
    if k == "has":
        return "%s contains %s" % (atom(e["e"]), atom(e["i"]))
    if k == "field":
        return "%s's %s" % (atom(e["e"]), e["f"])
    if k == "list":
        return "[" + ", ".join(expr(x) for x in e["a"]) + "]"
    if k == "new":
        return "a new Point with x %s and y %s" % (atom(e["a"][0]), atom(e["a"][1]))
    if k == "empty":
        return "a new " + TYPES[e["t"]]
    if k == "cat":
        return '"' + "".join(x["v"] if x["k"] == "t" else "{" + expr(x) + "}" for x in e["a"]) + '"'
    if k == "call":
        return "%s(%s)" % (e["f"], ", ".join(expr(x) for x in e["a"]))
    raise ValueError(k)


def block(ss, ind):
    out = []
    for s in ss:
        out += stmt(s, ind)
    return out


def stmt(s, ind):
    k = s["k"]
    p = "    " * ind
    one = lambda t: [p + t + "."]
    if k == "let":
        return one("Let %s be %s" % (s["x"], expr(s["e"])))
    if k == "set":
        return one("Set %s to %s" % (s["x"], expr(s["e"])))
    if k == "seti":
        return one("Set item %s of %s to %s" % (atom(s["i"]), s["x"], expr(s["e"])))
    if k == "setf":
        return one("Set %s's %s to %s" % (s["x"], s["f"], atom(s["e"])))
    if k == "push":
        return one("Push %s to %s" % (atom(s["e"]), s["x"]))
    if k == "pushes":
        return one("Push %s to %s" % (", ".join(atom(x) for x in s["a"]), s["x"]))
    if k == "pop":
        return one("Pop from %s into %s" % (s["x"], s["y"]))
    if k == "add":
        return one("Add %s to %s" % (atom(s["e"]), s["x"]))
    if k == "rem":
        return one("Remove %s from %s" % (atom(s["e"]), s["x"]))
    if k == "show":
        return one("Show " + expr(s["e"]))
    if k == "if":
        o = [p + "If %s:" % expr(s["c"])] + (block(s["a"], ind + 1) or [p + "    Let unused be 0."])
        if s["b"]:
            o += [p + "Otherwise:"] + block(s["b"], ind + 1)
        return o
    if k == "while":
        return [p + "While %s:" % expr(s["c"])] + block(s["a"], ind + 1)
    if k == "for":
        return [p + "Repeat for %s from %s to %s:" % (s["x"], atom(s["lo"]), atom(s["hi"]))] + (block(s["a"], ind + 1) or [p + "    Let unused be 0."])
    if k == "each":
        return [p + "Repeat for %s in %s:" % (s["x"], atom(s["e"]))] + (block(s["a"], ind + 1) or [p + "    Let unused be 0."])
    if k == "brk":
        return one("Break")
    if k == "ret":
        return one("Return " + expr(s["e"]))
    if k == "do":
        return one("%s(%s)" % (s["f"], ", ".join(expr(x) for x in s["a"])))
    raise ValueError(k)


def source(prog):
    o = ["## A Point has:", "    An x: Int.", "    A y: Int.", ""]
    for i, f in enumerate(prog["fs"]):
        ps = " and ".join("(%s: %s%s)" % (x, "mutable " if m else "", TYPES[t]) for x, t, m in f["ps"])
        o += ["## To f%d %s%s:" % (i + 1, ps, "" if f["gives"] == "-" else " -> " + TYPES[f["gives"]])]
        o += (block(f["body"], 1) or ["    Let unused be 0."]) + [""]
    return "\n".join(o + ["## Main"] + block(prog["main"], 0)) + "\n"
