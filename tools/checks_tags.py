"""E18 tag and karaoke commands (spec/TagCmd*.tla)."""
from vlib import b

WORDS = ["Hello", "la la", "né", "日本 語", "a", "x  y", " ", "\\N", "don't", "tail ", "\t", "abc def ghi", "…", "oio"]
TAGS = ["\\b1", "\\b0", "\\bord2", "\\blur0.5", "\\be1", "\\i1", "\\iclip(0,0,9,9)", "\\c&HFF&", "\\1c&H00FF00&", "\\2c&H1&", "\\pos(10,20)", "\\pos( 1 , 2 )x", "\\k5", "\\k50", "\\k500", "\\kf30",
        "\\ko7", "\\kt100", "\\K20", "\\k 15 ", "\\k0", "\\k", "\\k5x", "\\kx9", "\\k1 note", "\\fnArial", "\\fnB 2", "\\rAlt", "\\r", "\\t(0,100,\\k9\\fs20)", "\\t(\\b1)", "\\fad()", "\\move(1,2,3,4)",
        "\\s1", "\\shad3", "\\u1", "\\clip(m 0 0 l 1 1)", "\\", "\\é", "\\an8"]


def text(r):
    out = ""
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        x = r.random()
        if x < .5:
            out += r.choice(WORDS)
        elif x < .95:
            out += "{" + r.choice(["", "", "", "note", " "]) + "".join(r.choice(TAGS) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))) + "}"
        else:
            out += r.choice(["{", "}", "{\\k9", "{a{\\k3}b}", "{\\i1{x}\\k8}"])
    return out


def commands(r, i, n):
    t = text(r)
    if r.random() < .3:
        t = "[Script Info]\nTitle: x\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,," + t + "\n"
    ops = [{"op": "reset", "t": b(t)}]
    size = len(t.encode())
    start = size - len(text(r).encode()) if r.random() < .2 else 0
    for _ in range(n):
        if len(ops) > 1 and r.random() < .25:
            ops.append({"op": "undo"})
            continue
        x = r.random()
        # a range that is mostly on characters and blocks of the first text
        cuts = [k for k in range(size + 1)]
        fr, to = (0, size) if x < .3 else sorted([r.choice(cuts), r.choice(cuts)])
        if r.random() < .03:
            to = size + r.choice([1, 5, 500])
        if r.random() < .02:
            fr, to = to, fr
        op = r.choice(["insert", "remove", "remove", "replace", "replace", "wrap", "parse", "adjust", "adjust", "adjust", "gen", "split", "apply"])
        rec = {"op": op, "via": r.choice(["cmd", "fluent"]), "from": fr, "to": to, "tag": [], "close": [], "pat": [], "with": [], "all": False, "keep": False, "wrapit": True, "kind": "", "num": 0, "den": 1,
               "list": [], "dur": 0, "ktype": r.choice(["k", "kf", "ko", "kt"]), "auto": r.random() < .7}
        if op == "insert":
            rec["to"] = rec["from"]
            rec["tag"] = b(r.choice(TAGS[:12] + [" \\b1 ", "b1", "", "{\\i1}", "{\\b1\\i1}", "é"]))
            rec["wrapit"] = r.random() < .7
        elif op == "remove":
            rec["all"] = r.random() < .4
            rec["keep"] = rec["via"] == "cmd" and r.random() < .3
            rec["pat"] = b(r.choice(["\\b", "\\k", "\\c", "\\i", "\\k5", "\\fn", "\\t", "\\pos", "\\b1", "\\é"]))
        elif op == "replace":
            rec["all"] = r.random() < .5
            rec["pat"] = b(r.choice(["\\b", "\\b1", "\\k", "\\k5", "\\c", "\\i1", "\\fnArial", "\\pos(", "\\zz"]))
            rec["with"] = b(r.choice(["\\b0", "\\i1", "", "\\kf", "\\1c", "\\b1\\k", "é"]))
        elif op == "wrap":
            rec["tag"] = b(r.choice(["\\b1", "\\b700", "\\blur2", "\\bord1", "\\i1", "\\iclip(0,0,1,1)", "\\u1", "\\s1", "\\shad2", "\\c&H0000FF&", "\\1c&HFF&", "\\clip(0,0,1,1)", "\\3c&H1&", "\\fs20", "\\fnArial", "\\an8"]))
            rec["close"] = b(r.choice(["", "", "", "\\b0", "\\r"]))
        elif op == "adjust":
            rec["kind"] = r.choice(["scale", "offset", "set", "custom"])
            if rec["kind"] == "scale":
                rec["num"], rec["den"] = r.choice([(1, 1), (2, 1), (3, 2), (1, 2), (5, 4), (0, 1), (10, 1), (7, 8)])
            elif rec["kind"] == "offset":
                rec["num"] = r.choice([0, 5, 10, 45, -5, -10, -1000, 1000])
            elif rec["kind"] == "set":
                rec["num"] = r.choice([0, 1, 5, 50, 999])
            else:
                rec["list"] = [r.choice([0, 1, 5, 50, 55, 500, 77]) for _ in range(r.choice([0, 1, 2, 3, 6]))]
        elif op == "gen":
            rec["dur"] = r.choice([0, 1, 50])
            if r.random() < .5:
                w = t.encode().rfind(b"}") + 1
                rec["from"], rec["to"] = (w, size) if w < size else (fr, to)
        elif op == "split":
            rec["dur"] = r.choice([0, 0, 25, 50])
            rec["list"] = [r.choice([0, 1, 2, 3, 4, 5, 8, 12, 100]) for _ in range(r.choice([0, 1, 2, 3]))]
            if r.random() < .7:
                rec["list"].sort()
        elif op == "apply":
            rec["kind"] = r.choice(["equal", "beat", "pattern"])
            rec["dur"] = r.choice([0, 10, 50])
            if rec["kind"] == "beat":
                rec["num"], rec["den"] = r.choice([0, 30, 60, 120, 120, 240]), r.choice([1, 2, 3, 4])
            rec["list"] = [r.choice([0, 5, 40, 60]) for _ in range(r.choice([0, 1, 2, 3]))] if rec["kind"] == "pattern" else []
        ops.append(rec)
        if op != "parse" and r.random() < .4:
            ops.append({"op": "undo"})
    return ops


def e18(ctx):
    ctx.model_check("TagCmd_MC", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "no"})
    gen = ctx.generate("TagCmd_MC", "TagCmd_Gen.cfg", env={"MAXLEN": "3", "PRINTHIST": "yes"})
    r = ctx.rng("tags")
    gen = r.sample(gen, min(len(gen), ctx.pick(220, 1100)))
    hs = gen + [{"id": f"r{i}", "ops": commands(r, i, ctx.pick(10, 20))} for i in range(ctx.pick(1200, 12000))]
    ps = ctx.conform("editor", "tags", "TagCmd_TV", hs, timeout=300)
    if ps and not ctx.violations:
        def mutate(recs):
            for x in recs:
                if x["op"] == "adjust" and x["ok"] and len(x["after"]) > 10:
                    x["after"][3] = 57 if x["after"][3] != 57 else 56
        ctx.corrupt_probe("TagCmd_TV", ps[0], None, mutate)
    ctx.require_cov("undo", "parse/cmd", "parse/fluent", "gen/refused", "split/refused", "apply/refused", "insert/refused",
                    *[f"{op}/{v}/" for op in ("insert", "remove", "replace", "wrap", "gen", "split") for v in ("cmd", "fluent")],
                    *[f"adjust/{v}/{k}" for v in ("cmd", "fluent") for k in ("scale", "offset", "set", "custom")],
                    *[f"apply/{v}/{k}" for v in ("cmd", "fluent") for k in ("equal", "beat", "pattern")])
    return ("histories = every command on every text of up to three of ten pieces, each undone (a seeded sample), plus seeded sequences of commands on ranges of generated texts and scripts; "
            "non-trivial = a distinct history")


CHECKS = {"E18": e18}
