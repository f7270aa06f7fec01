"""C06 the script as a mutable object (spec/ScriptMut*.tla)."""
from vlib import b
import gendoc


def style(r):
    f = [r.choice(["", "A", "Default", "0", "é", "100"]) for _ in gendoc.STYLE_FIELDS]
    o = lambda: [] if r.random() < .7 else [b(r.choice(["", "10"]))]
    return {"f": [b(x) for x in f], "parent": o(), "mt": o(), "mb": o(), "rt": o()}


def event(r):
    f = [r.choice(["", "0", "0:00:01.00", "Default", "a, b", "日"]) for _ in gendoc.EVENT_FIELDS]
    o = lambda: [] if r.random() < .7 else [b(r.choice(["", "10"]))]
    return {"ty": r.choice(gendoc.TYPES), "f": [b(x) for x in f], "mt": o(), "mb": o()}


def items(r, k, n):
    if k == "styles":
        return [style(r) for _ in range(n)]
    if k == "events":
        return [event(r) for _ in range(n)]
    if k == "info":
        return [{"key": b(r.choice(["Title", "X"])), "val": b(r.choice(["", "v"]))} for _ in range(n)]
    return [{"name": b("f.ttf"), "data": [b(x) for x in gendoc.uu(r, gendoc.blob(r))]} for _ in range(n)]


def small(r):
    while True:
        t = "\n".join(gendoc.document(r, r.random() < .3))
        if len(t) < 1500:
            return t


def history(r, i):
    text = small(r) if r.random() < .85 else "[Script Info]\nTitle: x\nEmpty:\n[Events]\nDialogue: 0,1,2,D,n,0,0,0,e,t, u\nComment: 0,1,2,D,n,0,0,0,e,t\n[Events]\nDialogue: 5,1,2,D,n,0,0,0,e,t"
    raw = text.encode()
    starts = [0] + [k + 1 for k, c in enumerate(raw) if c == 10]

    def at():
        return max(0, r.choice(starts) + r.choice([0, 0, 0, 1, 3, 10, -1])) if r.random() < .95 else r.choice([0, len(raw), len(raw) + 5])

    def line():
        x = r.random()
        if x < .3:
            q = [y for y in gendoc.event_lines(r, False) if not y.strip().startswith("Format")]
        elif x < .5:
            q = [y for y in gendoc.style_lines(r) if not y.startswith("Format")]
        elif x < .8:
            q = [r.choice(["Title", "X", "Empty", "PlayResX", "Ключ"]) + r.choice([":", ": ", " : "]) + r.choice(["", "new", "v: w", "é "])]
        else:
            q = [r.choice(gendoc.NOISE + ["Style: *P , A,B", "Style:", "Dialogue:", "Sound: 1,2", "  Comment: 0,0,0,D,,0,0,0,,x  "])]
        return r.choice(q) if q else "Dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,text, with comma"

    def ops(n):
        return [[at(), b(line()), r.randint(1, 99)] for _ in range(r.randint(0, n))]
    out = [{"op": "reset", "t": b(text)}]
    if r.random() < .7:
        out.append({"op": "track", "on": True})
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if x < .34:
            out.append({"op": "update", "at": at(), "line": b(line()), "no": r.randint(1, 99)})
        elif x < .42:
            out.append({"op": "says", "line": b(line())})
        elif x < .5:
            out.append({"op": "says_in", "k": r.choice(["info", "styles", "events", "events", "fonts", "graphics"]), "line": b(line())})
        elif x < .58:
            out.append({"op": "batch", "ops": ops(5)})
        elif x < .66:
            out.append({"op": "atomic", "ops": ops(2), "styles": r.choice([[], [items(r, "styles", r.randint(0, 2))]]),
                        "events": r.choice([[], [items(r, "events", r.randint(0, 2))]])})
        elif x < .72:
            k = r.choice(["styles", "events"])
            out.append({"op": "add", "k": k, "d": items(r, k, 1)[0]})
        elif x < .76:
            k = r.choice(["styles", "events"])
            out.append({"op": "adds", "k": k, "ds": items(r, k, r.randint(0, 3))})
        elif x < .8:
            k = r.choice(["info", "styles", "events", "fonts", "graphics"])
            out.append({"op": "add_section", "k": k, "ds": items(r, k, r.randint(0, 2))})
        elif x < .84:
            out.append({"op": "remove_section", "sec": r.randint(0, 4)})
        elif x < .87:
            base, o = r.choice([(gendoc.STYLE_FIELDS, "sfmt"), (gendoc.EVENT_FIELDS, "efmt")])
            out.append({"op": o, "f": [] if r.random() < .1 else [b(y) for y in gendoc.fields(r, base, True)]})
        elif x < .9:
            out.append({"op": "track", "on": r.random() < .6})
        else:
            out.append({"op": r.choice(["forget", "snap", "restore", "diff", "diff"])})
    return {"id": f"r{i}", "ops": out}


def c06(ctx):
    n = ctx.pick("2", "3")
    ctx.model_check("ScriptMut_MC", "ScriptMut_MC.cfg", env={"MAXLEN": n, "PRINTHIST": "no"})
    hs = ctx.generate("ScriptMut_MC", "ScriptMut_Gen.cfg", env={"MAXLEN": n, "PRINTHIST": "yes"})
    hs = ctx.rng("gen").sample(hs, min(len(hs), ctx.pick(1400, 40000)))
    r = ctx.rng("h")
    hs += [history(r, i) for i in range(ctx.pick(450, 20000))]
    gap = "[Events]\nDialogue: 0,1,2,D,n,0,0,0,e,t\n; between\nDialogue: 0,1,2,D,n,0,0,0,e,u"
    for k, at in enumerate(range(len(gap) + 2)):
        hs.append({"id": f"gap{k}", "ops": [{"op": "reset", "t": b(gap)}, {"op": "update", "at": at, "line": b("Comment: 1,1,2,D,n,0,0,0,e,v"), "no": 3},
                                            {"op": "update", "at": at, "line": b("Dialogue: 2,1,2,D,n,0,0,0,e,w"), "no": 4}]})
    ps = ctx.conform("core", "script", "ScriptMut_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x["v"]["n"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("ScriptMut_TV", ps[0], None, mutate)
    ctx.require_cov("update done", "update SectionNotFound", "update IndexOutOfBounds", "update InvalidFieldFormat", "update InsufficientFields",
                    "batch partly", "atomic done", "atomic SectionNotFound", "add styles", "add events", "adds events", "add_section",
                    "remove_section", "remove_section none", "says done", "says in done", "says in MissingFormat", "format", "diff some", "restore")
    return "histories = every sequence of up to 2 (thorough: 3) of ScriptMut_MC's 64 operations on one script (sampled), and seeded histories of up to 9 operations on generated documents"


CHECKS = {"C06": c06}
