"""C13: the tokenizer (spec/Tokens*.tla); C15: text clean-up (spec/TextUtil*.tla)."""
from vlib import b
import gendoc

PIECES = ["[", "]", ":", ",", "{", "}", "\n", "\r", "\r\n", ";", "!:", "!", " ", "\t", "\u3000", "a", "word", "0:00:01.50", "-3", "12", "&HFF00FF&", "&H123",
          "&H00FFFFFF", "&H", "&H123456789A", "é", "日本", "𝄞", "{\\b1}", "{a{b}c}", "[Script Info]", "Dialogue: 0,", "a long run of plain text ", "\ufeff", "\x0b", "\x85"]


def text(r):
    k = r.random()
    if k < .35:
        t = gendoc.document(r)[:500]
        return t.replace("\n", r.choice(["\n", "\n", "\r\n", "\r"]))
    return "".join(r.choice(PIECES) for _ in range(r.choice([1, 2, 4, 9, 30])))


def damaged(r):
    d = bytearray(("".join(r.choice(["plain ascii ", "é", "日", "𝄞", "x"]) for _ in range(r.randint(0, 9)))).encode())
    for _ in range(r.choice([0, 1, 1, 2])):
        j = r.randint(0, len(d))
        d[j:j] = bytes(r.choice([[255], [195], [226, 130], [240, 159, 146], [237, 160, 128], [192, 128], [128], [244, 144, 128, 128]]))
    return list(d)


def hexish(r):
    return "".join(r.choice("0123456789abcdefABCDEF" + ("" if r.random() < .7 else "+-g é")) for _ in range(r.randint(0, 9)))


def c13(ctx):
    ctx.model_check("Tokens_MC", "Tokens_MC.cfg", env={"MAXLEN": ctx.pick("3", "5"), "PRINTHIST": "no"})
    gen = ctx.generate("Tokens_MC", "Tokens_Gen.cfg", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "yes"})
    r = ctx.rng("tokens")
    if not ctx.thorough:
        gen = r.sample(gen, 2500)
    docs = [{"id": f"d{i}", "ops": [{"op": "reset", "t": b(text(r))}]} for i in range(ctx.pick(1200, 20000))]
    simd = []
    for i in range(ctx.pick(300, 4000)):
        ops = [{"op": "reset", "t": []}]
        for _ in range(4):
            ops.append({"op": "scan", "t": b(hexish(r) if r.random() < .4 else
                        "".join(r.choice(["plain text", "é", " ", "words and more words", r.choice(PIECES)]) for _ in range(r.randint(0, 5))))})
            ops.append({"op": "utf8", "n": damaged(r)})
        simd.append({"id": f"v{i}", "ops": ops})
    ps = ctx.conform("core", "tokens", "Tokens_TV", gen + docs + simd)
    ctx.conform("scalar", "tokens", "Tokens_TV", docs + gen[:ctx.pick(500, 20000)])

    def mutate(recs):
        for x in recs:
            if not x["panic"] and x["op"] == "reset" and x["toks"]:
                x["toks"][-1]["col"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("Tokens_TV", ps[0], None, mutate)
    ctx.require_cov("long token", "classified", "plain", "scan", "utf8")
    return ("texts = every sequence of up to 3 (4) of 16 pieces (seeded sample in the quick tier) plus seeded documents and token soups, read by the "
            "vectorised build and by the scalar build; delimiter, hex and UTF-8 helpers on seeded inputs; non-trivial = a distinct text")


BITS = ["a", "word", " ", "  ", "\t", "\n", "\r", "\r\n", "\u00a0", "\u3000", "\u2028", "\x85", "\x00", "\x1b", "\x7f", "\u0091", "é", "日本", "𝄞", "\ufffd",
        "\ufeff", "[Events]", "Dialogue:", "[Events", "PlayRes", "Style", "style:"]
BAD = [[255], [255, 254], [254, 255], [255, 254, 0, 0], [0, 0, 254, 255], [195], [226, 130], [240, 159, 146], [237, 160, 128], [192, 128], [128],
       [244, 144, 128, 128], [224, 159, 191], [240, 143, 191, 191], [239, 187], [239, 191, 189]]


def messy(r):
    d = bytearray("".join(r.choice(BITS) for _ in range(r.choice([0, 1, 3, 6, 12]))).encode())
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        j = r.choice([0, len(d), r.randint(0, len(d))])
        d[j:j] = bytes(r.choice(BAD))
    return list(d)


def c15(ctx):
    ctx.model_check("TextUtil_MC", "TextUtil_MC.cfg", env={"MAXLEN": ctx.pick("3", "5"), "PRINTHIST": "no"})
    gen = ctx.generate("TextUtil_MC", "TextUtil_Gen.cfg", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "yes"})
    r = ctx.rng("textutil")
    gen = r.sample(gen, min(len(gen), ctx.pick(3000, 80000)))
    hs = gen + [{"id": f"m{i}", "ops": [{"op": "reset", "n": messy(r), "k": r.randint(0, 12)}]} for i in range(ctx.pick(3000, 40000))]
    ps = ctx.conform("core", "text", "TextUtil_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x["nrec"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("TextUtil_TV", ps[0], None, mutate)
    ctx.require_cov("damaged", "marked", "plain", "controls")
    return ("inputs = every sequence of 3 (5 in the model, 4 replayed) of 19 telling bytes (seeded sample) plus seeded mixes of text, white space, controls, marks and "
            "damage; non-trivial = a distinct input")


CHECKS = {"C13": c13, "C15": c15}
