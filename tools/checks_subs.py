"""E17 conversion between subtitle formats (spec/Subs*.tla)."""
from gendoc import style_lines, sp
from vlib import b

WORDS = ["Hello", "you", "né", "日本", "1", "42", "a < b", "R&B", "<3", "(x)", "10:30", "NOTE this", "WEBVTT", "x, y", "--", "-> no", "50%", "STYLE"]


def clock(r, cs=False):
    h = r.choice([0, 0, 0, 1, 9, 10, 99, 100])
    return h, r.choice([0, 1, 59]), r.choice([0, 5, 59]), r.choice([0, 1, 9, 10, 99, 100, 450, 995, 999])


def html(r, vtt, lone=True):
    """A line of cue text."""
    out = ""
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < .5:
            w = r.choice(WORDS)
            out += w.replace("&", "&amp;").replace("<", "&lt;") if vtt else w
        elif x < .8:
            t = r.choice("biu" if vtt else "biuus")
            out += r.choice([f"<{t}>x</{t}>", f"<{t}>", f"</{t}>", f"<{t}>ab "]) + r.choice(["", "z"])
        elif x < .9 and vtt:
            out += r.choice(["<v Bob>Hi</v>", "<v Ann>", "<c.red>w</c>", "<c>q</c>", "<00:00:01.000>k", "<lang en>e</lang>", "&gt;", "a&nbsp;b", "&lt;b&gt;", "&copy;", "<c.a><c.b>n</c></c>"])
        elif not vtt:
            out += r.choice(['<font color="#FF0000">r</font>', '<font color=red>r</font>', '<font face="Arial">', '<font size="9">s</font>', "{\\an8}", "{\\i1}"])
        else:
            out += "w"
        if r.random() < .3:
            out += " "
    if vtt:
        out = out.replace("-->", "- ->")  # not in the text of a cue
    return (out.strip(" ") or "x") if r.random() < .9 else "w" + out.strip(" ")


def subfile(r, vtt):
    sep = "." if vtt else ","
    nl = "\r\n" if r.random() < .2 else "\n"

    def t():
        h, m, s, ms = clock(r)
        return f"{m:02}:{s:02}{sep}{ms:03}" if vtt and r.random() < .2 else f"{h:02}:{m:02}:{s:02}{sep}{ms:03}"
    blocks = []
    for k in range(r.choice([0, 1, 2, 3, 4])):
        x = r.random()
        if x < .12:
            if vtt:
                blocks.append(r.choice([["NOTE"], ["NOTE a comment", "of lines"], ["STYLE", "::cue {", "  color: red;", "}"], ["REGION", "id:x"], ["no cue"]]))
            else:
                blocks.append(r.choice([["12"], ["no cue"], ["no", "cue at all"], ["a", "b", "c"]]))
        ls = []
        if not vtt or r.random() < .5:
            ls.append(str(k + 1) if not vtt or r.random() < .7 else r.choice(["intro", "NOTES", "cue one"]))
        tail = "" if r.random() < .7 else (r.choice([" align:start", " line:20% position:50%", "\tsize:9%", " line:0 position:1 align:end", " "]) if vtt
                                             else r.choice([" X1:40 X2:600 Y1:20 Y2:50", " ", "  X1:1 X2:2"]))
        ls.append(t() + r.choice([" --> ", " --> ", "-->", "  -->  "] if not vtt else [" --> "]) + t() + tail)
        if r.random() < .95:
            ls += [html(r, vtt) for _ in range(r.choice([1, 1, 2, 3]))]
        blocks.append(ls)
    head = []
    if vtt:
        head = [[r.choice(["WEBVTT", "WEBVTT", "WEBVTT - title"])] + ([] if r.random() < .8 else ["Kind: captions", "Language: en"])]
    s = (nl * r.choice([2, 2, 2, 3])).join(nl.join(x) for x in head + blocks)
    return ("\ufeff" if r.random() < .1 else "") + s + nl * r.choice([0, 1, 1, 2])


def asstext(r):
    out = ""
    for _ in range(r.choice([1, 2, 3, 5])):
        x = r.random()
        if x < .4:
            out += r.choice(WORDS)
        elif x < .6:
            out += r.choice(["\\N", "\\N", "\\n", "\\h", "\\N\\N", "\\N \\N"])
        elif x < .9:
            tags = r.choice(["\\b1", "\\b0", "\\i1", "\\i0", "\\u1", "\\u0", "\\s1", "\\s0", "\\b1\\i1", "\\an8", "\\pos(1,2)\\i1", "\\c&HFF0000&", "\\c", "\\fnArial", "\\fn", "\\b1\\c&H00FF00&",
                             "note", " \\i0 ", "\\blur2", "\\t(\\fs20)", "\\k20", "", "\\i", "\\be1", "\\bord2", "\\iclip(0,0,1,1)", "note\\u1"])
            out += "{" + tags + "}"
        elif x < .95:
            out += "{\\p1}m 0 0 l 9 0 9 9{\\p0}" if r.random() < .7 else "{\\p2\\b1}m 0 0 l 9 9{\\p}x"
        else:
            out += r.choice(["{open", "close}", "\\x"])
    return out.strip(" ")


def script(r):
    def t():
        h, m, s, ms = clock(r)
        return r.choice([f"{h}:{m:02}:{s:02}.{ms // 10:02}"] * 5 + [f"{h}:{m}:{s}.{ms // 10}", f"{h:02}:{m:02}:{s:02}.{ms:03}"])
    out = ["[Script Info]", "Title: x", "", "[V4+ Styles]"] + style_lines(r) + [""]
    for _ in range(r.choice([1, 1, 1, 2])):
        fmt = r.choice([None, None, ["Start", "End", "Style", "Text"]])
        out += ["[Events]", "Format: " + (", ".join(fmt) if fmt else "Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text")]
        for _ in range(r.choice([0, 1, 2, 3])):
            ty = r.choice(["Dialogue"] * 5 + ["Comment", "Picture"])
            a = f"{t()},{t()},Default,"
            out.append(f"{ty}: " + (a + asstext(r) if fmt else f"0,{a},0,0,{r.choice([0, 0, 15])},,{asstext(r)}"))
        if r.random() < .3:
            out += ["", "[Fonts]", ""]
    return "\n".join(out) + r.choice(["", "\n"])


def conversions(r, i, n):
    ops = [{"op": "reset"}]

    def rec(op, via, fmt, s=""):
        ext = {"srt": ["", "SRT", "srt"], "vtt": ["", "webvtt", "VTT"], "ass": ["", "Ass"]}.get(fmt, [""])
        return {"op": op, "via": via, "fmt": fmt, "ext": r.choice(ext), "strip": r.random() < .2 and via == "utils", "opts": r.choice(["", "", "vtt", "srt"]), "s": b(s)}
    via = lambda: r.choice(["formats", "utils"])
    for _ in range(n):
        x = r.random()
        if x < .3:
            f = r.choice(["srt", "vtt"])
            v = via()
            ops.append(rec("read", v, "auto" if v == "utils" and r.random() < .25 else f, subfile(r, f == "vtt")))
            if ops[-1]["fmt"] == "auto" and f == "srt" and "-->" not in bytes(ops[-1]["s"]).decode():
                ops[-1]["fmt"] = "srt"
        elif x < .55:
            ops.append(rec("read", via(), "ass", script(r)))
        elif x < .6:
            t = "\n".join(asstext(r) for _ in range(r.choice([1, 2, 3])))
            ops.append(rec("read", "utils", "txt", t))
        else:
            f = r.choice(["srt", "vtt", "srt", "vtt", "ass", "txt"])
            v = "utils" if f == "txt" else via()
            if not any(o["op"] in ("read", "again") for o in ops):
                ops.append(rec("read", via(), "ass", script(r)))
            ops.append(rec("write", v, f))
            if r.random() < .5 and f in ("srt", "vtt", "ass"):
                ops.append(rec("again", via(), f))
    return ops


def e17(ctx):
    ctx.model_check("Subs_MC", env={"MAXLEN": ctx.pick("1", "2"), "PRINTHIST": "no"})
    gen = ctx.generate("Subs_MC", "Subs_Gen.cfg", env={"MAXLEN": ctx.pick("1", "2"), "PRINTHIST": "yes"})
    r = ctx.rng("subs")
    gen = r.sample(gen, min(len(gen), ctx.pick(300, 3000)))
    hs = gen + [{"id": f"r{i}", "ops": conversions(r, i, ctx.pick(8, 16))} for i in range(ctx.pick(300, 2500))]
    ps = ctx.conform("editor", "subs", "Subs_TV", hs, timeout=300)
    if ps and not ctx.violations:
        def mutate(recs):
            for x in recs:
                if x["op"] == "write" and x["fmt"] == "srt" and len(x["out"]) > 10:
                    x["out"][5] = 57 if x["out"][5] != 57 else 56
        ctx.corrupt_probe("Subs_TV", ps[0], None, mutate)
    ctx.require_cov(*[f"{op}/{v}/{f}" for op in ("read", "write", "again") for v in ("formats", "utils") for f in ("srt", "vtt", "ass")],
                    "read/utils/txt", "read/utils/auto", "write/utils/txt")
    return ("histories = files of up to two cues over 11 texts and three times converted once (twice) between the three formats by either implementation (a seeded sample), plus "
            "seeded chains over generated SubRip, WebVTT, script and plain text files; non-trivial = a distinct history")


CHECKS = {"E17": e17}
