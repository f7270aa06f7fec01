"""R02 frames are a function of what is shown, R03 incremental rendering, R10 bitmap lists (spec/Frames*.tla)."""
import random

ORDER = ["info", "styles", "events"]


def style(r, name="Default", **kw):
    f = dict(font=r.choice(["DejaVu Sans", "DejaVu Serif", "Nowhere"]), size=r.choice(["10", "12", "20"]), c1=r.choice(["&H00FFFFFF", "&H0000FF00", "&H800000FF"]),
             c2="&H000000FF", c3=r.choice(["&H00000000", "&H00FF0000"]), c4=r.choice(["&H80000000", "&H0000FFFF"]), b=r.choice("001"), i=r.choice("001"), u=r.choice("0001"),
             s=r.choice("0001"), sx=r.choice(["100", "100", "150"]), sy=r.choice(["100", "100", "80"]), sp=r.choice("0002"), an="0", bs=r.choice("1113"), ol=r.choice("0012"),
             sh=r.choice("0012"), al=r.choice("123456789"), ml=r.choice(["0", "5"]), mr=r.choice(["0", "5"]), mv=r.choice(["0", "4"]))
    f.update(kw)
    return f"Style: {name}," + ",".join(f.values()) + ",1\n"


STATIC = ["{\\b1}", "{\\i1}", "{\\u1}", "{\\s1}", "{\\fs9}", "{\\fs18}", "{\\fs18.4}", "{\\bord2}", "{\\bord5}", "{\\xbord3}", "{\\shad2}", "{\\xshad-2}", "{\\shad7}", "{\\xshad-9\\yshad3}", "{\\blur0.6}", "{\\be4}", "{\\blur2}", "{\\be1}", "{\\c&H0000FF&}",
          "{\\c&HFF0000&}", "{\\3c&H00FF00&}", "{\\4c&H00FFFF&}", "{\\1a&H80&}", "{\\alpha&H40&}", "{\\3a&HC0&}", "{\\an7}", "{\\an5}", "{\\an2}", "{\\pos(20,10)}", "{\\pos(21,10)}",
          "{\\pos(20.5,10.5)}", "{\\clip(5,5,40,20)}", "{\\iclip(5,5,40,20)}", "{\\frz30}", "{\\frx40}", "{\\fry40}", "{\\org(0,0)}", "{\\fscx150}", "{\\fscy50}", "{\\fsp3}", "{\\fax0.3}",
          "{\\fay0.2}", "{\\r}", "{\\rOther}", "{\\q2}", "{\\fnDejaVu Serif}", "{\\fnDejaVu Sans Mono}", "{\\2c&H00FF00&}", "\\N", "\\h", "{\\bord0}", "{\\shad0}", "{note}"]
CHANGING = ["{\\t(\\fs30)}", "{\\t(50,150,\\c&H00FF00&)}", "{\\move(0,0,60,20)}", "{\\fad(200,300)}", "{\\fade(255,0,128,0,200,300,500)}", "{\\k20}", "{\\K20}", "{\\kf30}", "{\\ko30}",
            "{\\t(\\bord4)}", "{\\t(0,300,2,\\frz90)}", "{\\t(\\alpha&HFF&)}", "{\\t(\\clip(0,0,9,9))}"]
WORDS = ["ab", "AV", "x", "two words", "é日", "ii", "a b c d e f g h"]
DRAWS = ["m 0 0 l 20 0 20 15 0 15", "m 0 0 l 30 0 0 20", "m 5 5 b 10 0 20 0 25 10 l 5 10", "m 0 0 l 9 0 9 9 0 9 m 3 3 l 6 3 6 6 3 6", "junk", ""]


def blurs(tx):
    return "\\blur" in tx or "\\be" in tx


def moving(tx):
    return any(k in tx for k in ("\\t", "\\move", "\\fad", "\\k", "\\K"))


def text(r, lively=.3):
    if r.random() < .3:
        tags = [t for t in r.sample(STATIC, r.randint(0, 3)) if t not in ("\\N", "\\h")] + ["{\\move(0,0,60,20)}"] * (r.random() < .2)
        return "".join(tags) + "{\\p1}" + r.choice(DRAWS) + ("{\\p0}" + r.choice(WORDS) if r.random() < .1 else "")
    t = ""
    for _ in range(r.randint(1, 3)):
        if r.random() < lively:
            t += r.choice(CHANGING)
        t += "".join(r.sample(STATIC, r.choice([0, 1, 1, 2, 3]))) + r.choice(WORDS)
    return t


def event(r, ts, lively=.3):
    a, b = sorted(r.sample(ts, 2))
    tx = text(r, lively)
    return {"ty": r.choice(["Dialogue"] * 9 + ["Comment"]), "layer": r.choice(["0", "0", "1", "-1", "2", "x"]), "s": a if r.random() < .95 else -1, "e": b, "style": r.choice(["Default"] * 3 + ["Other", "Missing"]),
            "ml": r.choice(["0", "0", "7"]), "mr": r.choice(["0", "0", "7"]), "mv": r.choice(["0", "0", "6"]), "eff": "", "tx": tx, "ch": moving(tx), "bl": blurs(tx)}


def info(r):
    return "".join(x for x in (r.choice(["PlayResX: 96\nPlayResY: 48\n", "PlayResX: 192\nPlayResY: 96\n", "", "PlayResX: 96\n"]), r.choice(["", "", "WrapStyle: 2\n", "WrapStyle: 1\n"]),
                               r.choice(["", "", "ScaledBorderAndShadow: no\n"]), r.choice(["", "", "", "LayoutResX: 48\nLayoutResY: 24\n"])))


def script(r, ts, lively=.3, n=4):
    names = r.sample(["Default", "Other", "Third"], r.randint(0, 3))
    return {"op": "script", "info": info(r), "styles": "".join(style(r, nm) for nm in names), "order": ORDER if r.random() < .85 else r.choice([["styles", "info", "events"], ["events", "styles", "info"]]),
            "evs": [event(r, ts, lively) for _ in range(r.randint(1, n))]}


def vary(r, sc, ts):
    """The same script with one part changed, so that most of what is kept still fits."""
    sc = {**sc, "evs": [dict(e) for e in sc["evs"]]}
    k = r.randrange(7)
    if k == 0:
        sc["info"] = info(r)
    elif k == 1:
        sc["styles"] = "".join(style(r, nm) for nm in ("Default", "Other"))
    elif k == 2:
        r.shuffle(sc["evs"])
    else:
        e = r.choice(sc["evs"])
        if k == 3:
            e["layer"] = r.choice(["0", "1", "-1"])
        elif k == 4:
            e["style"] = r.choice(["Default", "Other", "Third"])
        elif k == 5:
            e["s"], e["e"] = sorted(r.sample(ts, 2))
        else:
            e["tx"] = r.choice(STATIC) + e["tx"]
    for e in sc["evs"]:
        e["ch"], e["bl"] = moving(e["tx"]), blurs(e["tx"])
    return sc


def history(r, i, n, kinds, lively=.3):
    sizes = [(96, 48), (96, 48), (64, 32), (130, 70)]
    ts = sorted(r.sample(range(0, 400, 10), 6))
    w, h = r.choice(sizes)
    sc = script(r, ts, lively)
    ops = [{"op": "reset", "w": w, "hh": h}, sc]
    frames = 0
    while len(ops) < n:
        x = r.random()
        if x < .12:
            sc = script(r, ts, lively) if r.random() < .4 else vary(r, sc, ts)
            ops.append(sc)
            frames = 0
        elif x < .17:
            w, h = r.choice(sizes)
            ops.append({"op": "size", "w": w, "hh": h})
        else:
            t = r.choice(ts) + r.choice([0, 0, 5, -1])
            t = max(0, t)
            o = r.choice(kinds)
            if o == "incr" and frames == 0:
                o = "frame"
            ops.append({"op": o, "t": t, **({"k": r.randrange(min(frames, 3))} if o == "incr" else {})})
            frames += o in ("frame", "incr")
            if o != "fresh" and r.random() < .6:
                ops.append({"op": "freshmaps" if o == "bitmaps" else "fresh", "t": t})
    return {"id": f"f{i}", "ops": ops}


def run(ctx, only, kinds, count, length, tags):
    ctx.model_check("Frames_MC", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "no"})
    r = ctx.rng("frames")
    gen = []
    if only:
        gen = ctx.generate("Frames_MC", "Frames_Gen.cfg", env={"MAXLEN": "4", "PRINTHIST": "yes"})
        gen = [g for g in gen if any(o["op"] in only for o in g["ops"])]
        gen = r.sample(gen, min(len(gen), ctx.pick(500, 6000)))
    hs = gen + [history(r, i, ctx.pick(*length), kinds, r.choice([0, .15, .5])) for i in range(ctx.pick(*count))]
    if "bitmaps" in kinds:
        # listed finding: what \\blur and \\be leave behind is not premultiplied
        hs.append({"id": "blur-straight", "known": "blur-straight", "ops": [
            {"op": "reset", "w": 96, "hh": 48},
            {"op": "script", "info": "PlayResX: 96\nPlayResY: 48\n", "styles": style(random.Random(1), "Default"), "order": ORDER, "evs": [
                {"ty": "Dialogue", "layer": "0", "s": 0, "e": 100, "style": "Default", "ml": "0", "mr": "0", "mv": "0", "eff": "", "tx": "{\\blur2}ab", "ch": False, "bl": False}]},
            {"op": "bitmaps", "t": 50}]})
    ps = ctx.conform("renderer", "frames", "Frames_TV", hs, timeout=600)

    def mutate(recs):
        for x in recs:
            if x["op"] not in ("reset", "script", "size"):
                x["ts"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("Frames_TV", ps[0], None, mutate)
    ctx.require_cov(*tags)


def r02(ctx):
    run(ctx, ["frame"], ["frame"] * 4 + ["fresh"], (300, 3000), (16, 30),
        ["script", "size", "frame/empty", "frame/first", "frame/again", "frame/same", "frame/again-changing", "fresh/again", "fresh/same", "fresh/again-changing"])
    return ("histories = sequences of 4 operations over seven scripts that differ in one part each (seeded sample) plus seeded ones with all tags the renderer knows, "
            "each frame compared with a fresh renderer on a fresh thread; non-trivial = a distinct history")


def r03(ctx):
    run(ctx, ["incr"], ["frame"] + ["incr"] * 3, (300, 3000), (16, 30),
        ["script", "size", "incr/empty", "incr/first", "incr/again", "incr/same", "incr/again-changing", "fresh/again", "fresh/again-changing"])
    return ("histories = sequences of 4 operations over seven scripts (seeded sample) plus seeded ones with all tags the renderer knows, frames built from any of the "
            "last three frames and compared with fresh full ones; non-trivial = a distinct history")


def r10(ctx):
    run(ctx, [], ["frame"] + ["bitmaps"] * 3, (300, 3000), (14, 26),
        ["script", "size", "bitmaps/empty", "bitmaps/first", "bitmaps/again", "bitmaps/first-changing", "freshmaps/again", "freshmaps/again-changing"])
    return ("histories = seeded ones with all tags the renderer knows, lists of bitmaps laid over each other in exact arithmetic and compared with the frame of a fresh "
            "renderer, within the rounding of each blend; non-trivial = a distinct history")


CHECKS = {"R02": r02, "R03": r03, "R10": r10}
