"""E20 embedded files (spec/Media*.tla)."""
import gendoc
from vlib import b

NAMES = ["a", "ab", "a.ttf", "b.ttf", "b c.otf", "é.ttf", "C:\\x.png", "x: y", "", " a ", "日本.ttf", "A", "a.ttf ", "fontname: a", "[x]", "; n"]
BAD = ["a\nb", "a\n", "a\n[Events]", "\n"]
LINES = ["!```", "!``", "!80`", "#;FQ'", "data line", "more", "x", "begin 644 a", "`", "end", "M" + "!" * 60, "  spaced  ", "é", "#x", "*junk", "; c", "! c", "# c", "#", "", "  ", "[Fonts]", " [x", "fontname: b", "filename: b", "Dialogue: 0", "a\nb", "!``\r"]


def doc(r):
    if r.random() < .35:
        return gendoc.document(r, r.random() < .6)
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        k = r.choice(["fontname", "fontname", "filename", "filename", "info", "events", "skip"])
        head = {"fontname": "[Fonts]", "filename": "[Graphics]", "info": "[Script Info]", "events": "[Events]", "skip": "[Other]"}[k]
        out.append(r.choice(["", "", "", "  "]) + head + r.choice(["", "", "", " x"]))
        if k in ("fontname", "filename"):
            for _ in range(r.choice([0, 1, 2, 3])):
                out.append(r.choice(["", "", " "]) + k + ":" + r.choice(["", " "]) + r.choice(NAMES[:12]))
                out += gendoc.uu(r, gendoc.blob(r)) if r.random() < .6 else [r.choice(LINES[:19]) for _ in range(r.choice([0, 1, 2]))]
                if r.random() < .35:
                    out.append(r.choice(["", "", "; note", "# note", "! note", "junk", "[Font", "  "]))
        elif k == "events":
            out += ["Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text", "Dialogue: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,," + r.choice(["x", "[Fonts]", "[Graphics] fontname: a"])]
        elif k == "info":
            out += ["Title: " + r.choice(["[Fonts]", "x"]), r.choice(["; [Fonts]", "fontname: a", ""])]
        else:
            out += [r.choice(["fontname: a", "x", "; [Graphics]"])]
        if r.random() < .4:
            out += [""] * r.choice([1, 2])
    eol = r.choice(["\n"] * 5 + ["\r\n"])
    return ("\ufeff" if r.random() < .06 else "") + eol.join(out) + (eol if r.random() < .7 else "")


def blob(r):
    n = r.choice([0, 1, 2, 3, 4, 26, 27, 28, 44, 45, 46, 47, 72, 90, 91, r.randint(0, 140)])
    return [r.choice([0, 0, 1, 27, 59, 91, 255, r.randint(0, 255)]) for _ in range(n)]


def commands(r, n):
    ops = [{"op": "reset", "t": b(doc(r))}]
    for _ in range(n):
        x = r.random()
        kind = r.choice(["fonts", "graphics"])
        if x < .12:
            ops.append({"op": "list", "kind": kind})
        elif x < .2:
            ops.append({"op": "undo"})
        elif x < .55:
            raw = r.random() < .6
            name = r.choice(BAD) if r.random() < .06 else r.choice(NAMES)
            lns = [] if raw else [r.choice(LINES[:14]) if r.random() < .85 else r.choice(LINES) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            ops.append({"op": "add", "kind": kind, "how": "bytes" if raw else "lines", "name": b(name), "lns": [b(x) for x in lns], "bin": blob(r) if raw else [], "unit": r.random() < .5, "fluent": r.random() < .4})
        elif x < .9:
            ops.append({"op": "remove", "kind": kind, "name": b(r.choice(NAMES[:12])), "unit": r.random() < .5, "fluent": r.random() < .4})
        else:
            ops.append({"op": "clear", "kind": kind, "name": [], "unit": r.random() < .5, "fluent": r.random() < .4})
    return ops


def e20(ctx):
    ctx.model_check("Media_MC", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "no"})
    gen = ctx.generate("Media_MC", "Media_Gen.cfg", env={"MAXLEN": "3", "PRINTHIST": "yes"})
    r = ctx.rng("media")
    gen = r.sample(gen, min(len(gen), ctx.pick(400, 1900)))
    hs = gen + [{"id": f"r{i}", "ops": commands(r, ctx.pick(10, 16))} for i in range(ctx.pick(700, 7000))]
    ps = ctx.conform("editor", "media", "Media_TV", hs, timeout=300)
    if ps and not ctx.violations:
        def mutate(recs):
            for x in recs:
                if x["op"] == "remove" and x["ok"] and x["changed"]:
                    x["after"] = x["after"] + [59, 10]
        ctx.corrupt_probe("Media_TV", ps[0], None, mutate)
    ctx.require_cov("undo", *[t.format(k) for k in ("fonts", "graphics") for t in
                              ("list/{}", "add/{}/bytes", "add/{}/lines", "add/{}/refused", "remove/{}", "remove/{}/nothing", "remove/{}/refused", "clear/{}", "clear/{}/nothing")])
    return ("histories = one fixed sequence of all commands on every text of up to three of twelve pieces (a seeded sample), plus seeded sequences of commands on generated documents, names, lines and bytes; "
            "non-trivial = a distinct history")


CHECKS = {"E20": e20}
