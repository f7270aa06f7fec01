"""E06 positions, lines and columns (spec/Places*.tla)."""
from vlib import b

BITS = ["a", "bc", "é", "日本", "😀", " ", "    ", "\t", "\n", "\n", "\n", "\r\n", "\r\n", "\r", "\u000b", "\u000c", "\u0085", "\u2028", "\u2029", "\u2026", "Dialogue: 0,", "{\\b1}", "\n\n", "\n  "]


def text(r):
    bits = BITS if r.random() < .5 else [x for x in BITS if x not in ("\r", "\u000b", "\u000c", "\u0085", "\u2028", "\u2029")]
    return "".join(r.choice(bits) for _ in range(r.choice([0, 1, 3, 6, 12, 20])))


def edges(t):
    out = [0]
    for c in t:
        out.append(out[-1] + len(c.encode()))
    return out


def commands(r, n):
    t = text(r)
    size = len(t.encode())
    ok = edges(t)
    ops = [{"op": "reset", "t": b(t)}]

    def pos():
        return r.choice(ok) if r.random() < .85 else r.randint(0, size + 3) if r.random() < .9 else r.choice([size + 100, 4096])
    for _ in range(n):
        x = r.random()
        fr, to = pos(), pos()
        if fr > to and r.random() < .95:
            fr, to = to, fr
        if x < .15:
            ops.append({"op": "where", "at": pos()})
        elif x < .35:
            ops.append({"op": "place", "by": r.choice(["column", "both", "end", "start"]), "line": r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9]), "col": r.choice([0, 1, 1, 2, 3, 4, 6, 9])})
        elif x < .38:
            ops.append({"op": "place", "by": "offset", "line": pos(), "col": 0})
        elif x < .42:
            ops.append({"op": "text", "from": fr, "to": to})
        elif x < .5:
            v = [r.choice([0, 1, 2, 3, 5, 8, 9]) for _ in range(5)]
            ops.append({"op": "ranges", "a": v[0], "b": v[1], "c": v[2], "d": v[3], "p": v[4]})
        elif x < .6:
            ops.append({"op": "undo"})
        elif x < .82:
            by = r.choice(["offset", "offset", "offset", "line", "line", "start", "end"])
            ops.append({"op": "at", "by": by, "at": r.choice([0, 1, 1, 2, 3, 4, 7]) if by == "line" else pos(), "kind": r.choice(["insert", "break", "delete", "delete", "back", "back", "line", "line"]),
                        "n": r.choice([0, 1, 1, 2, 3, 7]), "x": b(r.choice(["", "x", "é", "new\n", "\r\n", "日"]))})
        else:
            ops.append({"op": "sel", "kind": r.choice(["with", "delete", "wrap", "indent", "indent", "unindent", "unindent"]), "from": fr, "to": to, "n": r.choice([0, 1, 2, 4, 8]),
                        "x": b(r.choice(["", "{\\b1}", "é"])), "y": b(r.choice(["", "{\\b0}"]))})
    return ops


def e06(ctx):
    ctx.model_check("Places_MC", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "no"})
    gen = ctx.generate("Places_MC", "Places_Gen.cfg", env={"MAXLEN": "3", "PRINTHIST": "yes"})
    r = ctx.rng("places")
    gen = r.sample(gen, min(len(gen), ctx.pick(300, 1110)))
    hs = gen + [{"id": f"r{i}", "ops": commands(r, ctx.pick(14, 20))} for i in range(ctx.pick(1500, 15000))]
    ps = ctx.conform("editor", "places", "Places_TV", hs, timeout=300)
    if ps and not ctx.violations:
        def mutate(recs):
            for x in recs:
                if x["op"] == "place" and x["got"] > 0:
                    x["got"] += 1
        ctx.corrupt_probe("Places_TV", ps[0], None, mutate)
    ctx.require_cov("undo", "where", "where/none", "where/within", "text", "ranges", *[f"place/{k}{x}" for k in ("column", "both", "end", "start", "offset") for x in ("", "/none")],
                    *[f"at/{k}{x}" for k in ("insert", "break", "delete", "back", "line") for x in ("", "/refused")],
                    *[f"sel/{k}{x}" for k in ("with", "delete", "wrap", "indent", "unindent") for x in ("", "/refused")])
    return ("histories = every conversion at every offset, line and column, and edits each undone, on every text of up to three of ten pieces (a seeded sample), plus seeded sequences of conversions and edits on generated texts; "
            "non-trivial = a distinct history")


CHECKS = {"E06": e06}
