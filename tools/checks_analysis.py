"""C10 lint, C11 style resolution, C17 line analysis (spec/Analysis*.tla)."""
from vlib import b
import gendoc
import checks_tagtext

RULES = ["timing-overlap", "negative-duration", "invalid-color", "missing-style", "invalid-tag", "performance", "encoding", "accessibility"]


def one(i, **op):
    return {"id": i, "ops": [dict(op="reset", **op)]}


# --- styles -------------------------------------------------------------------
NAMES = ["A", "B", "C", "D", "Default", "é"]
REAL = ["0", "1", "2", "2.5", "3.125", "4", "4.25", "-1", "-0.5", "+1.5", ".5", "1.", "0.0", "10"]
BADNUM = ["", "x", "1,", "--1", "1.2.3", " ", ".", "-", "+", "0x1"]
COL = ["&H00FFFFFF", "&H000000FF&", "&hFF00FF00", "", "&HFFFFFF", "0", "00AABBCC", "&HZZ", "&H12345", "  "]


def pick(r, good, bad, p=.04):
    return r.choice(bad) if r.random() < p else r.choice(good)


def style_line(r, names, fmt, child, parents, bad):
    full = not child or r.random() < .3
    def val(k):
        if not full and r.random() < .55:
            return ""
        k = k.lower()
        if k == "fontname":
            return r.choice(["Arial", "Noto Sans", "", "Ünï"])
        if k == "fontsize":
            return pick(r, ["20", "48", "48.5", "50", "50.25", "72", "72.5", "1", "200.5", "1000", "0.5", "+30"], ["0", "-1", "1000.5", "1001", "x", "", "2 0"], bad)
        if "colour" in k:
            return pick(r, COL[:7], COL[7:], bad)
        if k in ("bold", "italic", "underline", "strikeout"):
            return pick(r, ["0", "1", "0", "1"], ["-1", "", "2", "yes", "01", "00"], bad)
        if k.startswith("scale"):
            return pick(r, ["100", "100", "100", "50", "200.5", "0", "1000", "100.0"], ["-1", "1000.5", "x", ""], bad)
        if k in ("spacing", "angle", "outline", "shadow"):
            return pick(r, REAL, BADNUM, bad)
        if k in ("borderstyle", "alignment", "encoding"):
            return pick(r, ["1", "2", "7", "0", "255", "+3"], ["256", "-1", "", "x", "1.0"], bad)
        if k.startswith("margin"):
            return pick(r, ["0", "10", "25", "7", "65535", "1001", "+5"], ["65536", "-1", "", "x", "1.5"], bad)
        return r.choice(["", "x"])
    vals = [val(k) for k in fmt]
    for i, k in enumerate(fmt):
        if k.lower() == "name":
            vals[i] = r.choice(names)
    pre = ("*" + r.choice(["", "*", " "]) + r.choice(parents) + r.choice(["", " "]) + ",") if child else ""
    return "Style: " + pre + ",".join(vals)


def styles_doc(r):
    out = []
    if r.random() < .5:
        out.append("[Script Info]")
        res = [r.choice([(640, 320), (1280, 640), (640, 640), (1024, 256), (320, 320), (960, 480), (1920, 960)])] * 2
        base = r.choice([15, 20, 5, 16])
        e = [2 ** r.randint(0, 4) for _ in range(4)]
        ls = [("LayoutResX", base * e[0]), ("LayoutResY", base * e[1]), ("PlayResX", base * e[2]), ("PlayResY", base * e[3])]
        if r.random() < .15:
            ls[2], ls[3] = ("PlayResX", ls[0][1]), ("PlayResY", ls[1][1])
        if r.random() < .15:
            ls = r.sample(ls, r.randint(0, 3))
        if r.random() < .05:
            ls.append((r.choice(ls)[0] if ls else "X", "x"))
        r.shuffle(ls)
        out += [f"{k}: {v}" for k, v in ls]
    fmt = list(gendoc.STYLE_FIELDS)
    x = r.random()
    if x < .25:
        fmt[21:22] = r.choice([["MarginT", "MarginB"], ["MarginV", "MarginT", "MarginB"], ["MarginT", "MarginV"], ["MarginB", "MarginV"]])
    elif x < .35:
        fmt = r.sample(fmt, len(fmt))
    out += ["[V4+ Styles]", "Format: " + ", ".join(fmt)]
    shape = r.random()
    n = r.randint(1, 6)
    names = r.sample(NAMES, len(NAMES))[:n]
    bad = r.choice([0, 0, 0, .01, .03])
    order = list(range(n))
    r.shuffle(order)
    lines = []
    for i in range(n):
        child = i > 0 and r.random() < .75
        par = [names[r.randrange(i)] if i else names[0]]
        if r.random() < .06:
            par = ["Nobody"]
        if r.random() < .04:
            child, par = True, [r.choice(names)]      # possibly a cycle or itself
        lines.append(style_line(r, [names[i]], fmt, child, par, bad))
    lines = [lines[i] for i in order]
    if shape < .08:
        lines.append(style_line(r, names, fmt, r.random() < .5, names, bad))
    out += lines
    if r.random() < .1:
        out += ["[V4 Styles]", style_line(r, ["Other"], gendoc.STYLE_FIELDS, False, [""], 0)]
    return "\n".join(out) + "\n"


# --- lines --------------------------------------------------------------------
def tm(r, far):
    if far and r.random() < .2:
        return r.choice(["11930:27:52.95", "11930:27:52.94", "11000:00:00.00", "9000:59:59.99"])
    v = r.randint(0, r.choice([3, 60, 300, 3000]))
    s = "%d:%02d:%02d.%02d" % (v // 360000, v // 6000 % 60, v // 100 % 60, v % 100)
    return r.choice(["", "bad", s + ".", s[:-3], "0:61:00.00"]) if r.random() < .02 else s


def words(r, n):
    return "".join(r.choice(["a", "b", " ", "é", "字", "w"]) for _ in range(n))


def line_text(r, lint):
    x = r.random()
    if x < .35:
        return checks_tagtext.text(r).replace("\r", "").replace("\n", "")
    if x < .45:
        return words(r, r.choice([49, 50, 51, 199, 200, 201, 202]))
    if x < .48:
        return words(r, r.choice([499, 500, 501, 502]))
    if x < .5:
        return "{" + "".join("\\" + r.choice(checks_tagtext.NAMES) for _ in range(r.choice([5, 6, 15, 16, 20, 21, 30, 31]))) + "}x"
    if x < .7:
        return "".join("{\\" + r.choice(["t(0,1,", "", "t("]) + r.choice(["\\", ""]) + r.choice(["c", "1c", "2c", "3c", "4c", "5c", "c", "éc", "1é", "1"])
                       + r.choice(["&H", "&h", "&", ""]) + r.choice(["FFFFFF", "FF", "ZZ", "00AABBCC", "", "é", " FFFFFF "]) + r.choice(["&", "", "&)", ")"]) + "}" for _ in range(r.randint(1, 3)))
    if x < .85:
        return "".join(r.choice(["\t", "\x07", "\x7f", "\u0085", "\u009f", "\ufffd", "😀", "😀", "字", "a", "\u200b"]) for _ in range(r.randint(0, 5)))
    return words(r, r.randint(0, 30))


def lines_doc(r, lint):
    out = []
    if lint and r.random() < .4:
        out += ["[Script Info]"] + [r.choice(["Title: x", "Title: a\tb", "A: \x01", "B: é\u0085", "C: \x7f", "Ключ: \x02x", "D: ok"]) for _ in range(r.randint(0, 3))]
    if lint or r.random() < .2:
        fs = list(gendoc.STYLE_FIELDS)
        out += ["[V4+ Styles]"] + [style_line(r, [r.choice(NAMES)], fs, False, [""], .05) for _ in range(r.randint(0, 3))]
    out.append("[Events]")
    far = r.random() < .1
    for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4])):
        out.append(f"{r.choice(gendoc.TYPES)}: 0,{tm(r, far)},{tm(r, far)},{r.choice(NAMES)},,0,0,0,,{line_text(r, lint)}")
    if r.random() < .05:
        out += ["[Events]", "Dialogue: 0,0:00:00.00,0:00:00.10,Zed,,0,0,0,,x"]
    return "\n".join(out) + "\n"


def big_doc(r, n, text, dt, fonts=0):
    fs = list(gendoc.STYLE_FIELDS)
    out = ["[V4+ Styles]"] + [f"Style: S{i},Arial,73,,,,,0,0,0,0,100,100,0,0,1,0,0,2,0,0,0,0" for i in range(fonts)] + ["[Events]"]
    for i in range(n):
        a = i * dt
        out.append("Dialogue: 0,0:%02d:%02d.%02d,0:%02d:%02d.%02d,,,,,,,%s" % (a // 6000, a // 100 % 60, a % 100, (a + 60) // 6000, (a + 60) // 100 % 60, (a + 60) % 100, text))
    return "\n".join(out) + "\n"


def query(r):
    v = lambda: r.choice([0, 1, 50, 100, r.randint(0, 300), r.randint(0, 3000), 2**32 - 1])
    a, z = v(), v()
    return [[a // 360000, a % 360000], [z // 360000, z % 360000]]


def config(r):
    return {"en": r.sample(RULES, r.choice([0, 0, 0, 1, 3, 8])), "dis": r.sample(RULES, r.choice([0, 0, 1, 2])),
            "min": r.choice(["info", "hint", "warning", "error", "critical", "warning"]), "max": r.choice([0, 0, 1, 2, 3, 5, 10])}


def probe(ctx, ps, mutate):
    if ps and not ctx.violations:
        ctx.corrupt_probe("Analysis_TV", ps[0], None, mutate)


def c11(ctx):
    ctx.model_check("Analysis_MC", "Analysis_MC.cfg", env={"FULL": ctx.pick("no", "yes")})
    r = ctx.rng("s")
    hs = [one(f"s{i}", k="styles", t=b(styles_doc(r))) for i in range(ctx.pick(500, 20000))]
    ps = ctx.conform("core", "analysis", "Analysis_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x["styles"] = x["styles"] + [[1]]
    probe(ctx, ps, mutate)
    ctx.require_cov("styles repeated", "styles cyclic", "styles inherited", "styles inherited and scaled", "styles scaled", "styles plain", "styles none")
    return "seeded style sections of up to 7 styles in any order, with parents before and after their children, missing, repeated and circular, omitted, neutral and damaged values, v4++ margins, and resolutions with dyadic ratios"


def c17(ctx):
    r = ctx.rng("l")
    hs = [one(f"l{i}", k="lines", t=b(lines_doc(r, False)), qs=[query(r) for _ in range(3)]) for i in range(ctx.pick(900, 20000))]
    shapes = [(8, "x", 0, 0), (9, "{\\p1}", 10, 6), (24, "{\\t(\\b1)}", 100, 0), (52, "{\\p1}", 100, 11), (12, "x", 0, 11), (12, "x", 10, 0)]
    shapes += [(n + k, "x", 30, f) for n, f in ((11, 5), (21, 6), (51, 10)) for k in (0, 1)] + [(n + k, "{\\p1}", 60, 0) for n in (20, 50, 100) for k in (0, 1)]
    shapes += [(n + k, "x", 60, 0) for n in ctx.pick((), (500, 1000)) for k in (0, 1)]
    for i, (n, text, dt, fonts) in enumerate(shapes):
        hs.append(one(f"b{i}", k="lines", t=b(big_doc(r, n, text, dt, fonts)), qs=[query(r)]))
    ps = ctx.conform("core", "analysis", "Analysis_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x["sum"]["events"] += 1
    probe(ctx, ps, mutate)
    ctx.require_cov("lines none", "lines overlapping", "lines apart")
    return "seeded event sections with ties, touching, reversed, unreadable and extreme times and texts around every threshold; documents with many overlaps, animations and large fonts"


def c10(ctx):
    r = ctx.rng("i")
    hs = [one(f"i{i}", k="lint", focus=RULES[i % 8], t=b(lines_doc(r, True)), cfgs=[config(r) for _ in range(4)]) for i in range(ctx.pick(900, 20000))]
    ps = ctx.conform("core", "analysis", "Analysis_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x["all"] = x["all"] + [["encoding", "hint", [1]]]
                x["cats"] = x["cats"] + ["encoding"]
    probe(ctx, ps, mutate)
    ctx.require_cov(*["lint " + x for x in RULES])
    return "seeded scripts hitting every rule around its thresholds, each linted under the default and four random configurations, by category and by rule"


CHECKS = {"C10": c10, "C11": c11, "C17": c17}
