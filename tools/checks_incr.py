"""C05: incremental re-reading (spec/Incr*.tla)."""
from vlib import b
import gendoc

LINES = ["[Script Info]", "[V4+ Styles]", "[Events]", "[Fonts]", "[Graphics]", "[Other]", "[Ev", "]", "; note", "",
         "Title: x", "ScriptType: v4.00", "Format: Name, Bold", "Format: Start, Text", "Style: *P,a", "Style: q,1",
         "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,héllo, you", "Comment: 1, 2", "fontname: a.ttf", "!!``", "filename: z"]


def session(r, i, n):
    t = gendoc.document(r) if r.random() < .6 else "".join(r.choice(LINES) + "\n" for _ in range(r.randint(0, 9)))
    t = t[:1200]
    ops = [{"op": "reset", "t": b(t)}]
    for _ in range(n):
        k = r.random()
        if k < .5:          # inside a line
            s = r.randint(0, len(t))
            e = min(len(t), s + r.choice([0, 0, 1, 2, 5, 17]))
            x = r.choice(["", "a", ":", ",", "é", "]", "[", "\n", "\r\n", "Title: ", ", ,"])
        else:               # whole lines
            starts = [0] + [j + 1 for j, c in enumerate(t) if c == "\n"]
            q = r.randrange(len(starts))
            s = starts[q]
            e = starts[min(len(starts) - 1, q + r.choice([0, 0, 1, 1, 2, 4]))] if r.random() < .8 else len(t)
            x = "".join(r.choice(LINES) + "\n" for _ in range(r.choice([0, 1, 1, 2])))
        ops.append({"op": "edit", "s": len(t[:s].encode()), "e": len(t[:e].encode()), "n": b(x)})
        t = t[:s] + x + t[e:]
    return {"id": f"s{i}", "ops": ops}


def c05(ctx):
    ctx.model_check("Incr_MC", "Incr_MC.cfg", env={"GENDEPTH": ctx.pick("1", "2"), "PRINTHIST": "no"})
    gen = ctx.generate("Incr_MC", "Incr_Gen.cfg", env={"GENDEPTH": ctx.pick("1", "2"), "PRINTHIST": "yes"})
    r = ctx.rng("incr")
    gen = r.sample(gen, min(len(gen), ctx.pick(1500, 40000)))
    hs = gen + [session(r, i, ctx.pick(4, 8)) for i in range(ctx.pick(450, 6000))]
    ps = ctx.conform("core", "incr", "Incr_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"] and x["op"] == "edit":
                x["removed"] = x["removed"] + [1]
    if ps and not ctx.violations:
        ctx.corrupt_probe("Incr_TV", ps[0], None, mutate)
    ctx.require_cov("edit/sections change", "edit/modified", "edit/outside", "edit/no effect")
    return ("edits = every replacement of up to two lines by one of 17 lines in five small documents (seeded sample in the quick tier), "
            "plus seeded sessions of line and in-line edits on realistic documents; non-trivial = a distinct session")


CHECKS = {"C05": c05}
