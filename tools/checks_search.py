"""E16 searching and replacing (spec/Search*.tla)."""
import gendoc
from vlib import b

PIECES = ["Hello", "hello", "HELLO", "hell", "o", "él", "ÉL", "é", "a", "aa", "A", "aA", "İ", "i", "i̇", "K", "k", "日本", "日", "…", "_x", "x9", " ", " ", "\n", "\n", "\r\n", "\n\n", "[Events]\n", "\n[Events]\n", "\n [Script Info] \n",
          "\n[V4+ Styles]\r\n", "[a]", "{\\i1}", "0,0:00:01.00", ".", "a.b", "(", "\\N", "$", "world", "World", "naïve", "\t"]
NAMES = ["Events", "Script Info", "V4+ Styles", "a", "events", "Nope", ""]


def text(r):
    if r.random() < .2:
        return gendoc.document(r)[:400] if hasattr(gendoc, "document") else "[Events]\n" + "".join(r.choice(PIECES) for _ in range(30))
    return "".join(r.choice(PIECES) for _ in range(r.choice([1, 3, 6, 12, 25])))


def starts(t):
    out, n = [], 0
    for c in t:
        out.append(n)
        n += len(c.encode())
    return out + [n]


def pattern(r, t):
    x = r.random()
    if t and x < .35:
        i = r.randrange(len(t))
        p = t[i:i + r.choice([1, 2, 3, 5, 9])]
    elif x < .97:
        p = "".join(r.choice(PIECES) for _ in range(r.choice([1, 1, 1, 2])))
    else:
        p = ""
    y = r.random()
    return p.swapcase() if y < .2 and p.isascii() else p


def query(r, op, t):
    size = len(t.encode())
    rec = {"op": op, "pat": b(pattern(r, t)), "exact": r.random() < .5, "whole": r.random() < .3, "max": r.choice([0, 0, 0, 1, 2, 5, 100]), "scope": r.choice(["all", "all", "range", "lines", "sections"]),
           "a": 0, "b": 0, "names": [], "regex": "no", "new": b(r.choice(["", "x", "Hello", "aa", "é", "longer text", "\n", "[Events]\n"]))}
    if rec["scope"] == "range":
        rec["a"], rec["b"] = r.choice([0, r.randrange(size + 3)]), r.choice([size, size + 9, r.randrange(size + 3)])
    elif rec["scope"] == "lines":
        n = t.count("\n")
        rec["a"], rec["b"] = r.randrange(n + 3), r.choice([r.randrange(n + 3), 999])
    elif rec["scope"] == "sections":
        rec["names"] = [b(x) for x in r.sample(NAMES, r.choice([0, 1, 1, 2]))]
    x = r.random()
    # case folding of regular expressions is another; white space in them may be skipped by none
    if x < .25 and rec["pat"] and (rec["exact"] or not any(c in bytes(rec["pat"]).decode() for c in "İKkiI")) and (rec["exact"] or not any(c in t for c in "İK")):
        rec["regex"] = "yes"
    elif x < .28:
        rec["regex"] = "bad"
    return rec


def history(r, n):
    t = text(r)
    ops = [{"op": "reset", "t": b(t), "engine": r.choice(["made", "index", "fst", "linear"])}]
    if r.random() < .95:
        ops.append({"op": "build"})
    known = True      # whether t is the document's text
    for _ in range(n):
        x = r.random()
        if x < .55:
            ops.append(query(r, "search", t))
        elif x < .75:
            ops.append(query(r, "replace", t))
            known = False
        elif x < .85 and known:
            cs = starts(t)
            i, j = sorted([r.randrange(len(t) + 1), r.randrange(len(t) + 1)])
            j = min(j, i + 6)
            new = r.choice(PIECES + [""])
            ops.append({"op": "edit", "a": cs[i], "b": cs[j], "new": b(new)})
            t = t[:i] + new + t[j:]
        elif x < .97:
            ops.append({"op": r.choice(["build", "update", "update"])})
        else:
            ops.append({"op": "clear"})
    return ops


def e16(ctx):
    ctx.model_check("Search_MC", env={"MAXLEN": ctx.pick("2", "3"), "PRINTHIST": "no"})
    gen = ctx.generate("Search_MC", "Search_Gen.cfg", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "yes"})
    r = ctx.rng("search")
    gen = r.sample(gen, min(len(gen), ctx.pick(400, 3000)))
    hs = gen + [{"id": f"r{i}", "ops": history(r, ctx.pick(12, 20))} for i in range(ctx.pick(1500, 12000))]
    ps = ctx.conform("editor", "search", "Search_TV", hs, timeout=300)
    if ps and not ctx.violations:
        def mutate(recs):
            for x in recs:
                if x["op"] == "search" and x["ok"] and x["got"]:
                    x["got"] = x["got"][1:]
        ctx.corrupt_probe("Search_TV", ps[0], None, mutate)
    ctx.require_cov("build", "update", "clear", "edit", *[f"reset/{e}" for e in ("made", "index", "fst", "linear")],
                    *[f"{op}/{sc}/{re}" for op in ("search", "replace") for sc in ("all", "range", "lines", "sections") for re in ("no", "yes", "bad")])
    return ("histories = searches and replacements over every text of up to three of twelve pieces (a seeded sample), plus seeded histories of edits, index updates, searches and replacements on every engine; "
            "non-trivial = a distinct history")


CHECKS = {"E16": e16}
