"""C12 override tags and text analysis (spec/TagText*.tla)."""
from vlib import b

NAMES = ["b", "i", "u", "s", "c", "1c", "4a", "alpha", "fs", "fn", "r", "fscx", "pos", "move", "fad", "t", "p", "pbo", "k", "kf", "an", "clip", "xyz", "2", "9q", "rr", "fnn"]
ARGS = ["", "0", "1", "-1", "(1,2)", "(1,2,3,4)", "&HFF00FF&", "Arial", "(0,500,\\fs20)", "(\\t(\\b1))", "(", ")", " ", "é", "20", "1-2", "(0,(1))x"]
PIECES = ["{", "}", "\\", "\\N", "\\n", "\\h", "\\é", "a", "Hello", " ", "é", "字", "\u05d0", "\u0628", "\u0750", "\u08ff", "\u0590", "\u07ff", "\x7f", "\x80", "\xa0", "\u0100", "\t", "\U0001f600", "\r", "m 0 0 l 10 10"]


def tag(r):
    return "\\" + r.choice(["", "", "", "", " ", "\\"]) + r.choice(NAMES) + r.choice(ARGS)


def block(r):
    return "".join(r.choice([tag(r), tag(r), tag(r), r.choice(PIECES), "comment", "\\p1", "\\p0", "\\p-3", "\\p2-1"]) for _ in range(r.randint(0, 4)))


def text(r):
    out = []
    for _ in range(r.randint(0, 6)):
        k = r.random()
        out.append("{" + block(r) + "}" if k < .5 else "{" + block(r) if k < .55 else r.choice(PIECES))
    if r.random() < .01:
        n = r.choice([99, 100, 101])
        out.insert(0, "{" * n + "x" + "}" * n)
    return "".join(out)


def handlers(r):
    return [[b(n), r.choice(["processed", "failed", "ignored"])] for n in r.sample(sorted(set(NAMES)), r.randint(0, 8))]


def c12(ctx):
    ctx.model_check("TagText_MC", "TagText_MC.cfg", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "no"})
    hs = ctx.generate("TagText_MC", "TagText_Gen.cfg", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "yes"})
    if not ctx.thorough:
        hs = ctx.rng("gen").sample(hs, min(len(hs), 9000))
    r = ctx.rng("t")
    one = lambda i, **op: {"id": i, "ops": [dict(op="reset", **op)]}
    for i in range(ctx.pick(2500, 50000)):
        hs.append(one(f"t{i}", k="text", s=b(text(r)), hs=handlers(r)))
        hs.append(one(f"b{i}", k="block", s=b(block(r)), hs=handlers(r), base=r.choice([0, 1, 7, 1000])))
        if i % 2:
            hs.append(one(f"l{i}", k="breaks", s=b("".join(r.choice(PIECES) for _ in range(r.randint(0, 8)))), draw=r.random() < .3))
    ps = ctx.conform("core", "tags", "TagText_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"] and x["k"] == "text" and x["a"]["ok"]:
                x["a"]["lines"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("TagText_TV", ps[0], None, mutate)
    ctx.require_cov("text plain", "text tags", "text drawing", "text malformed", "text empty tag", "text too deep",
                    "block tags", "block diagnosed", "breaks some")
    return "texts = every sequence of up to 4 (thorough: 5) pieces of TagText_MC's alphabet (sampled in the quick tier), seeded texts and blocks with real tag names, nested parentheses, drawing mode, right-to-left and non-ASCII characters, unclosed and too deep braces, and mock handlers of every outcome"


CHECKS = {"C12": c12}
