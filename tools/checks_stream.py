"""C04: the streaming reader (spec/Stream*.tla)."""
from vlib import b
import gendoc

PIECES = ["[Script Info]", "[Events]", "[V4+ Styles]", "[V4 Styles]", "[V4++ Styles]", "[Fonts]", "[Graphics]", "[X]", "[Ev ents", "[ Events ]", "[]", "[",
          "; c", "!: c", "Format: a, b", " Format:  é", "Dialogue: 0,1", "Comment: 2", "more", "Title: T", "Style: s", "Format:", "", "  ", "\u3000;", "𝄞"]
ENDS = ["\n", "\n", "\r\n", "\r", "\n\r", "\r\r\n"]


def cut(r, data):
    ops, i = [], 0
    while i < len(data):
        n = r.choice([1, 1, 1, 2, 3, 5, 8, 30])
        ops.append({"op": "feed", "n": list(data[i:i + n])})
        i += n
        if r.random() < .05:
            ops.append({"op": "feed", "n": []})
    return ops


def session(r, i):
    if r.random() < .4:
        t = gendoc.document(r)[:700]
        if r.random() < .4:
            t = t.replace("\n", "\r\n")
    else:
        t = "".join(r.choice(PIECES) + r.choice(ENDS) for _ in range(r.randint(0, 12)))
    data = t.encode()
    if r.random() < .25:                      # damage
        j = r.randint(0, len(data))
        data = data[:j] + bytes(r.choice([[255], [195], [226, 130], [240, 159, 146], [237, 160, 128], [192, 128], [128]])) + data[j:]
    ops = [{"op": "reset"}] + cut(r, data)
    if r.random() < .2:
        ops += [{"op": "clear"}] + cut(r, data[:60])
    ops += [{"op": "finish"}]
    if r.random() < .5:                       # the same parser type again
        ops += cut(r, data[:40]) + [{"op": "finish"}]
    return {"id": f"s{i}", "ops": ops}


def lines(r, i):
    return {"id": f"l{i}", "ops": [{"op": "reset"}] + [{"op": "line", "n": b(r.choice(["", " ", "\t"]) + r.choice(PIECES))}
                                                      for _ in range(r.randint(1, 25))]}


def c04(ctx):
    ctx.model_check("Stream_MC", "Stream_MC.cfg", env={"MAXLEN": ctx.pick("4", "6"), "PRINTHIST": "no"})
    gen = ctx.generate("Stream_MC", "Stream_Gen.cfg", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "yes"})
    r = ctx.rng("stream")
    hs = gen + [session(r, i) for i in range(ctx.pick(500, 8000))] + [lines(r, i) for i in range(ctx.pick(100, 1500))]
    ps = ctx.conform("core", "stream", "Stream_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"] and x["op"] == "feed":
                x["line"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("Stream_TV", ps[0], None, mutate)
    ctx.require_cov("feed/refused", "feed/character cut", "feed/line cut", "feed/line end cut", "feed/whole", "finish/TRUE",
                    "finish/FALSE", "line", "clear")
    return ("chunkings = every sequence of 3 (4) chunks over Stream_MC's 14-piece alphabet, plus seeded texts, damaged or not, "
            "cut at seeded places down to single bytes; non-trivial = a distinct sequence of chunks")


CHECKS = {"C04": c04}
