"""E10 lines made by builders (spec/Build*.tla)."""
import gendoc
from vlib import b

TEXTS = ["x", "", "a, b", "{\\b1}hi{\\b0}", "日本, x", "Comment: y", "1,2,3,,", "Dialogue", " padded ", "[x]", "; n", "Style: z"]
PLAIN = ["x", "", "Bob", "Ünï", "a b", "Dialogue", "0", "fade(1)", " y ", "Default", "&H0"]
EV = gendoc.EVENT_FIELDS
ST = gendoc.STYLE_FIELDS
EVX = EV + ["MarginT", "MarginB"]
STX = ST + ["MarginT", "MarginB", "AlphaLevel", "RelativeTo", "TertiaryColour", "Strikeout"]
FLOATS = {"ScaleX", "ScaleY", "Spacing", "Angle", "Outline", "Shadow"}
STRS = {"Name", "Fontname", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "RelativeTo"}
FLAGS = {"Bold", "Italic", "Underline", "StrikeOut"}


def event_sets(r, commas=True):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        f = r.choice(EVX)
        if f == "Text":
            v = r.choice(TEXTS if commas else PLAIN)
        elif f in ("Layer",) or f.startswith("Margin"):
            v = r.choice(["0", "1", "10", "4294967295", str(r.randint(0, 300))])
        elif f in ("Start", "End"):
            v = r.choice([gendoc.time(r), "0:00:00.00", "0:00:05.00", ""])
        else:
            v = r.choice(PLAIN)
        out.append({"f": f, "v": b(v)})
    return out


def style_sets(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 4, 9, 20])):
        f = r.choice(ST + ["MarginT", "MarginB", "AlphaLevel", "RelativeTo"])
        v = (r.choice(["0", "100", "95.5", "-0.25", "0.1", "1000000", "-7", "33.3"]) if f in FLOATS else r.choice(PLAIN) if f in STRS
             else r.choice(["0", "-1"]) if f in FLAGS else r.choice(["0", "1", "9", "255", "4294967295", str(r.randint(0, 90))]))
        out.append({"f": f, "v": b(v)})
    return out


def layout(r, names):
    n = r.choice([0, 1, 2, 3, 5, 8, len(names)])
    fmt = r.sample(names, min(n, len(names)))
    if r.random() < .08:
        fmt.insert(r.randint(0, len(fmt)), r.choice(["Foo", "", "Textual", "Marked", "name "]))
    return fmt


def doc(r):
    if r.random() < .5:
        return gendoc.document(r, r.random() < .6)
    fmt = r.sample(EV[:4] + EV[5:9] + ["MarginT", "Marked", r.choice(["Name", "Actor"])], r.randint(1, 8)) + ["Text"]
    fmt = [gendoc.case(r, f) for f in fmt]
    rows = []
    for _ in range(r.choice([0, 1, 2, 3])):
        vs = [r.choice(["", "0", "-1", " 0010 ", "x", "Bob", "0:00:01.00", "0:00:00.00"]) for _ in fmt[:-1]] + [r.choice(TEXTS)]
        rows.append(r.choice(["", "", " "]) + r.choice(gendoc.TYPES) + ":" + r.choice(["", " "]) + (r.choice([",", ",", " , "])).join(vs))
        if r.random() < .1:
            rows.append(r.choice(["", "; c", "Dialogue: short", "[Events]", "Format: Start, Text"]))
    eol = r.choice(["\n"] * 4 + ["\r\n"])
    return eol.join(["[Events]", "Format: " + ", ".join(fmt)] + rows) + r.choice(["", eol])


def one(r, n):
    ops = [{"op": "reset", "t": b(doc(r))}]
    for _ in range(n):
        x = r.random()
        if x < .3:
            how = r.choice(["plain", "ssa", "ass", "ext", "format", "format", "format"])
            fmt = layout(r, EVX if r.random() < .7 else EVX[:4] + ["Actor"] + EVX[5:]) if how == "format" else []
            low = [f.lower() for f in fmt]
            if how == "format" and r.random() < .5 and "text" in low:
                fmt.append(fmt.pop(low.index("text")))
            if "text" not in low and len(fmt) > 10:
                fmt = fmt[:10]
            if r.random() < .2:
                fmt = [gendoc.case(r, f) for f in fmt]
            last = how != "format" or (fmt and fmt[-1].lower() == "text") or "text" not in low
            ops.append({"op": "event", "how": how, "from": r.choice(["dialogue", "comment", "new"]), "fmt": [b(f) for f in fmt], "sets": event_sets(r, last)})
        elif x < .55:
            how = r.choice(["plain", "ssa", "ass", "ext", "format", "format", "format"])
            fmt = layout(r, STX) if how == "format" else []
            if "Strikeout" in fmt and "StrikeOut" in fmt:
                fmt.remove("Strikeout")
            ops.append({"op": "style", "how": how, "from": r.choice(["new", "default"]), "fmt": [b(f) for f in fmt], "sets": style_sets(r)})
        elif x < .65:
            ops.append({"op": "undo"})
        else:
            ops.append({"op": "edit", "n": r.choice([0, 0, 0, 1, 1, 2, 3, 9]), "from": r.choice(["keep", "keep", "keep", "new", "comment", "dialogue"]), "sets": event_sets(r)})
    return ops


def e10(ctx):
    ctx.model_check("Build_MC", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "no"})
    gen = ctx.generate("Build_MC", "Build_Gen.cfg", env={"MAXLEN": "3", "PRINTHIST": "yes"})
    r = ctx.rng("lines")
    gen = r.sample(gen, min(len(gen), ctx.pick(600, 3000)))
    hs = gen + [{"id": f"r{i}", "ops": one(r, ctx.pick(12, 20))} for i in range(ctx.pick(700, 9000))]
    ps = ctx.conform("editor", "lines", "Build_TV", hs, timeout=300)
    if ps and not ctx.violations:
        def mutate(recs):
            for x in recs:
                if x["op"] == "edit" and x["ok"]:
                    x["after"] = x["after"] + [32]
        ctx.corrupt_probe("Build_TV", ps[0], None, mutate)
    ctx.require_cov("undo", "edit/keep", "edit/same", "edit/new", "edit/comment", "edit/dialogue", "edit/refused", "event/format/refused", "style/format/refused",
                    *[f"{k}/{h}" for k in ("event", "style") for h in ("plain", "ssa", "ass", "ext", "format")])
    return ("histories = every layout of up to three of seven fields with few settings, built and used to edit (a seeded sample), plus seeded settings, layouts and documents; "
            "non-trivial = a distinct history")


CHECKS = {"E10": e10}
