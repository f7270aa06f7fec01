"""E14 style commands and whole lines, E15 script information (spec/DocCmd*.tla)."""
from vlib import b
import gendoc

NAMES = ["Default", "Sign", "Default2", "Star", "Top Left", "Ünï", "default", "A"]
KEYS = ["Title", "PlayResX", "PlayResY", "WrapStyle", "Original Script", "ScaledBorderAndShadow", "X", "Ключ", "title", "PlayRes", "Script Updated By"]
VALS = ["1280", "0", "2", "yes", "no", "Yes", "1", "", "a: b", " padded ", "é日", "4294967295", "4294967296", "256", "255", "-1", "+7", "x", "[Events]", "Style: A,", "007"]


def doc(r):
    while True:
        ls = []
        x = r.random()
        if r.random() < .85:
            ls += [r.choice(["[Script Info]", "[Script Info]", " [Script Info] ", "[Script Info] x"])]
            for _ in range(r.randint(0, 6)):
                ls.append(gendoc.sp(r) + r.choice(KEYS) + r.choice([":", ": ", " :  "]) + r.choice(VALS) + gendoc.sp(r))
                if r.random() < .2:
                    ls.append(r.choice(["; PlayResX: 9", "!: Title: z", "", "junk", "Format: a, b", "Title2: t"]))
            ls += [""] * r.randint(0, 1)
        if x < .15:
            ls = gendoc.document(r, r.random() < .3)
            ls = ls if isinstance(ls, list) else ls.split("\n")
        else:
            parts = []
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                parts.append([r.choice(["[V4+ Styles]", "[V4+ Styles]", "[V4 Styles]", "[V4++ Styles]"])] + styles(r))
            for _ in range(r.choice([0, 1, 1, 2])):
                parts.append(["[Events]"] + (gendoc.event_lines(r, False, r.randint(0, 4)) if r.random() < .5 else events(r)))
            if r.random() < .3:
                parts.append(["[Fonts]", "fontname: a.ttf", "!!!!"])
            if r.random() < .15:
                parts.append(["[Script Info]", "PlayResX: 5", "Title: again"])
            r.shuffle(parts)
            for p in parts:
                ls += p + [""] * r.randint(0, 1)
        t = r.choice(["", "", "", "", "\ufeff"]) + r.choice(["\n", "\n", "\n", "\r\n"]).join(ls) + r.choice(["", "\n", "\n\n"])
        if len(t.encode()) < 1500:
            return t


def styles(r):
    if r.random() < .35:
        return gendoc.style_lines(r)
    f = r.choice([["Name", "Fontname", "Fontsize"], ["Name", "Fontname", "Fontsize", "PrimaryColour", "Bold", "Italic", "Alignment"],
                  ["Fontsize", "Name", "Odd"], ["name", "FONTNAME", "fontsize", "outline"], gendoc.STYLE_FIELDS[:r.randint(2, 23)],
                  ["Name", "MarginT", "MarginB", "AlphaLevel", "RelativeTo", "TertiaryColour", "Strikeout"]])
    out = ["Format: " + r.choice([",", ", "]).join(f)] if r.random() < .9 else []
    for _ in range(r.randint(0, 4)):
        v = gendoc.style_values(r, f)
        k = [i for i, x in enumerate(f) if x.lower() == "name"]
        if k:
            v[k[0]] = r.choice(NAMES)
        out.append(gendoc.sp(r) + "Style:" + gendoc.sp(r) + ("*Default," if r.random() < .1 else "") + r.choice([",", ",", " , "]).join(v[:r.choice([9999, 9999, 9999, 2])]))
        if r.random() < .1:
            out.append(r.choice(["; Style: Default,x", "Format: Name, Fontname", "junk", ""]))
    return out


def events(r):
    out = ["Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text"]
    for _ in range(r.randint(0, 5)):
        out.append("%s: 0,0:00:01.00,0:00:02.00,%s,n,0,0,0,,%s" % (r.choice(["Dialogue", "Comment"]), r.choice(NAMES + [" Sign "]),
                   r.choice(["Default, text", "Sign", "é日本", "Style: Default", "one two"])))
    return out


def told(r):
    one = {"Fontname": ["Arial", "Noto Sans"], "Fontsize": ["33", "0"], "PrimaryColour": ["&H00FF00FF"], "SecondaryColour": ["&H1"], "OutlineColour": ["&H2"],
           "BackColour": ["&H3"], "Bold": ["-1", "0"], "Italic": ["-1", "0"], "Underline": ["-1", "0"], "StrikeOut": ["-1", "0"], "ScaleX": ["50", "12.5"],
           "ScaleY": ["200"], "Spacing": ["0.5", "-1"], "Angle": ["30"], "BorderStyle": ["3"], "Outline": ["1.5", "0"], "Shadow": ["3"], "Alignment": ["8"],
           "MarginL": ["1"], "MarginR": ["2"], "MarginV": ["3"], "MarginT": ["4"], "MarginB": ["5"], "Encoding": ["128"], "AlphaLevel": ["7"], "RelativeTo": ["2"]}
    return [[b(k), b(r.choice(one[k]))] for k in r.sample(sorted(one), r.choice([0, 1, 2, 4, 25]))]


def edits(r):
    ks = r.sample(["Fontname", "fontsize", "PrimaryColour", "Bold", "Italic", "Alignment", "Odd", "OUTLINE", "MarginV", "Name", "Encoding", "Angle"], r.choice([0, 1, 1, 2, 3, 8]))
    vals = {"Bold": ["-1", "0"], "Italic": ["-1", "0", "1"], "Alignment": ["7", "07"], "Name": NAMES + ["New"]}
    return [[b(k), b(r.choice(vals.get(k, ["v", "12", "", "é"])))] for k in ks]


def style_op(r, made, here):
    via = r.choice(["cmd", "exec", "fluent"])
    n, x = r.choice(here if here and r.random() < .6 else NAMES + made), r.random()
    if x < .18:
        made.append("New%d" % len(made))
        return {"op": "create", "via": via, "name": b(made[-1]), "ups": told(r)}
    if x < .38:
        return {"op": "edit", "via": via, "name": b(n), "ups": edits(r)}
    if x < .5:
        return {"op": "delete", "via": via, "name": b(n)}
    if x < .62:
        made.append("Copy%d" % len(made))
        return {"op": "clone", "via": via, "name": b(n), "to": b(r.choice([made[-1], made[-1], r.choice(NAMES)]))}
    if x < .78:
        return {"op": "apply", "via": via, "name": b(n), "to": b(r.choice(NAMES + ["New"])), "filter": r.choice([[], [], [b(r.choice(["text", "é", "Comment", "Default", "zzz"]))]])}
    if x < .84:
        return {"op": "addstyle", "via": "doc", "line": b(r.choice(["Style: Added,Arial,20", "Style: A2,x"]))}
    if x < .9:
        return {"op": "setstyle", "via": "doc", "name": b(n), "line": b("Style: %s,Courier,10" % n)}
    if x < .94:
        return {"op": "addevent", "via": "doc", "line": b(r.choice(["Dialogue: 0,0:00:05.00,0:00:06.00,Default,,0,0,0,,added", "Comment: x"]))}
    return {"op": "text", "via": "doc", "old": b(r.choice(["text", "Default", "Sign", "é", "0", "one ", "Title", "本", "Hello"])), "new": b(r.choice(["", "new", "é日"]))}


def info_op(r):
    x = r.random()
    k = r.choice(KEYS)
    if x < .3:
        return {"op": "iset", "via": r.choice(["cmd", "exec", "fluent", "doc"]), "key": b(k), "val": b(r.choice(VALS))}
    if x < .45:
        return {"op": "idel", "via": r.choice(["cmd", "exec", "fluent"]), "key": b(k)}
    if x < .62:
        return {"op": "iget", "via": r.choice(["cmd", "fluent", "doc"]), "key": b(k)}
    if x < .72:
        return {"op": "iall", "via": r.choice(["cmd", "fluent"])}
    if x < .8:
        return {"op": "setres", "via": "fluent", "w": b(r.choice(["0", "640", "4294967295"])), "hh": b(r.choice(["480", "1"]))}
    return {"op": r.choice(["res", "res", "wrap", "scaled"]), "via": "fluent"}


def hists(ctx, n, p):
    r = ctx.rng("doccmd" + p)
    gen = ctx.generate("DocCmd_MC", "DocCmd_Gen.cfg", env={"MAXLEN": "2", "PRINTHIST": "yes"})
    gen = r.sample(gen, min(len(gen), ctx.pick(500, 5000)))
    for h in gen:
        for op in h["ops"]:
            if op["op"] != "reset":
                op["via"] = op.get("via") or r.choice(["cmd", "fluent"])
                if op["via"] == "cmd" and op["op"] not in ("iget", "iall", "res", "undo"):
                    op["via"] = r.choice(["cmd", "exec", "fluent"])
    for i in range(n):
        t = doc(r)
        ops, made = [{"op": "reset", "t": b(t)}], []
        here = [w.strip() for line in t.split("\n") if "Style:" in line for w in line.split(":", 1)[1].split(",")[:2] if w.strip()]
        for _ in range(r.randint(1, 7)):
            x = r.random()
            ops.append({"op": "undo"} if x < .1 else info_op(r) if x < (.85 if p == "E15" else .2) else style_op(r, made, here))
        gen.append({"id": f"r{i}", "ops": ops})
    return gen


RULE = ("histories = every sequence of 2 of DocCmd_MC's commands on its 5 documents (a seeded sample) plus seeded histories of up to 7 commands, reads and undos, "
        "directly, as an undoable unit or through the fluent interface, over documents with custom formats, inherited styles, CRLF, BOM, several or missing "
        "sections and repeated keys; non-trivial = a distinct history")


def run(ctx, p, n, probe, tags):
    ctx.model_check("DocCmd_MC", "DocCmd_MC.cfg", env={"MAXLEN": ctx.pick("2", "3"), "PRINTHIST": "no"})
    ps = ctx.conform("editor", "dcmds", "DocCmd_TV", hists(ctx, n, p))

    def mutate(recs):
        for x in recs:
            if x["op"] == probe and not x["panic"] and x["after"]:
                x["after"] = x["after"] + [33]
    if ps and not ctx.violations:
        ctx.corrupt_probe("DocCmd_TV", ps[0], None, mutate)
    ctx.require_cov(*tags)
    return RULE


def e14(ctx):
    return run(ctx, "E14", ctx.pick(1800, 40000), "edit",
               ["create/one", "create/refused", "edit/one", "edit/refused", "delete/one", "delete/refused", "clone/one", "clone/refused", "apply/nothing",
                "apply/one", "apply/many", "addstyle/one", "setstyle/one", "addevent/one", "text/one", "text/nothing", "undo"])


def e15(ctx):
    return run(ctx, "E15", ctx.pick(1800, 40000), "iset",
               ["iset/one", "iset/refused", "idel/one", "idel/many", "idel/nothing", "idel/refused", "iget", "iget/none", "iget/refused", "iall", "iall/none",
                "iall/refused", "res", "res/none", "res/refused", "wrap", "wrap/none", "wrap/refused", "scaled", "scaled/none", "setres/one", "setres/refused", "undo"])


CHECKS = {"E14": e14, "E15": e15}
