"""C07 times, C08 colours and UU data, C09 overlapping events (spec/Codec*.tla, spec/Overlap*.tla)."""
from vlib import b
import gendoc


def one(i, **op):
    return {"id": i, "ops": [dict(op="reset", **op)]}


def model(ctx, kinds):
    ctx.model_check("Codec_MC", "Codec_MC.cfg", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "no"})
    gen = ctx.generate("Codec_MC", "Codec_Gen.cfg", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "yes"})
    gen = [h for h in gen if h["ops"][0]["k"] in kinds]
    return gen if ctx.thorough else ctx.rng("gen").sample(gen, min(len(gen), 12000))


def probe(ctx, ps, field):
    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x[field] = [1, 2, 3]
    if ps and not ctx.violations:
        ctx.corrupt_probe("Codec_TV", ps[0], None, mutate)


def rtime(r):
    k = r.random()
    if k < .5:
        return f"{r.choice([0, 1, 9, 23, 99, 11930, r.randint(0, 12000)])}:{r.randint(0, 60):02}:{r.randint(0, 60):02}.{r.choice([0, 5, 99, 100, r.randint(0, 99)]):02}"
    if k < .7:
        return f"{r.randint(0, 5)}:{r.randint(0, 70)}:{r.randint(0, 70)}" + r.choice(["", ".", ".5", ".054", ".100", ".1.2", ". 5"])
    if k < .85:
        # around the largest representable time
        return f"{r.choice([11929, 11930, 11931])}:{r.choice([27, 28, 26])}:{r.choice([52, 53, 51])}.{r.choice([94, 95, 96, 0, 4294967295, 4294967296])}"
    return "".join(r.choice(["0", "1", "9", ":", ".", "-", "+", " ", "é", "00", "59", "60", "x"]) for _ in range(r.randint(0, 9)))


def c07(ctx):
    hs = model(ctx, {"time"})
    r = ctx.rng("t")
    n = ctx.pick(4000, 60000)
    hs += [one(f"t{i}", k="time", s=b(rtime(r))) for i in range(n)]
    hs += [one(f"s{i}", k="span", s=b(rtime(r)), e=b(rtime(r))) for i in range(n)]
    edges = [0, 1, 9, 99, 100, 5999, 6000, 359999, 360000, 2**31 - 1, 2**31, 2**32 - 1]
    vs = edges + [r.randrange(2**r.randint(1, 32)) for _ in range(n)]
    hs += [one(f"f{i}", k="ftime", v=[v // 360000, v % 360000]) for i, v in enumerate(vs)]
    ps = ctx.conform("core", "codec", "Codec_TV", hs)
    probe(ctx, ps, "v")
    ctx.require_cov("time read", "time refused", "time written", "duration read", "duration none", "duration refused")
    return "texts = every sequence of up to 4 pieces of Codec_MC's alphabet (sampled in the quick tier), seeded times around every boundary, every written time read back"


def c08(ctx):
    hs = model(ctx, {"colour", "hex", "uuenc"})
    r = ctx.rng("c")
    n = ctx.pick(1500, 30000)
    def hexs(k):
        return "".join(r.choice("0123456789abcdefABCDEF") for _ in range(k))
    def ul():
        return r.choice(gendoc.uu(r, gendoc.blob(r)))
    for i in range(n):
        t = r.choice(["&H", "&h", "0x", "", "&H&", "H", "#", " &H"]) + hexs(r.choice([6, 8, 6, 8, 0, 3, 5, 7, 9, 12])) + r.choice(["&", "", "& ", "g", "é", "&&"])
        hs.append(one(f"c{i}", k="colour", s=b(t)))
        hs.append(one(f"h{i}", k="hex", s=b(hexs(r.randint(0, 9)) + r.choice(["", "", "g", "+", "é"]))))
        hs.append(one(f"n{i}", k="name", s=b("".join(r.choice(["a", "é", "\t", " ", ",", ":", "{", "}", "\x7f", "\x85", "\n", "字"]) if r.random() < .4 else "b" for _ in range(r.randint(0, 6))))))
        if i % 5 == 0:
            ls = [r.choice([ul(), ul(), "", " ", "end", "end x", "endx", "`", "  " + ul(), ul() + "\r\n", ul()[:-1], "comment é", "#" + hexs(3), "M" * 61]) for _ in range(r.randint(0, 5))]
            hs.append(one(f"u{i}", k="uu", ls=[b(x) for x in ls]))
            d = [r.choice([0, 255, 64, 63, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 44, 45, 46, 47, 48, 90, 91, 150]))]
            hs.append(one(f"e{i}", k="uuenc", d=d, ls=uuencode(d)))
    ps = ctx.conform("core", "codec", "Codec_TV", hs)
    probe(ctx, ps, "v")
    ctx.require_cov("colour read", "colour refused", "hex read", "hex refused", "uu data", "uu empty", "uu round trip", "name")
    return "colour and hex texts = every sequence of up to 4 pieces of Codec_MC's alphabet (sampled in the quick tier) plus seeded ones; UU data = every byte string up to 5 over 6 telling bytes, plus seeded data up to 150 bytes and damaged lines"


def uuencode(d):
    """Lines carrying d; the specification's EncodeUU is what they are validated against."""
    out = []
    for i in range(0, len(d), 45):
        part = d[i:i + 45]
        ln = [32 + len(part)]
        for k in range(0, len(part), 3):
            a, x, y = (part[k:k + 3] + [0, 0])[:3]
            ln += [32 + (a >> 2), 32 + ((a & 3) << 4 | x >> 4), 32 + ((x & 15) << 2 | y >> 6), 32 + (y & 63)]
        out.append(ln)
    return out


def c09(ctx):
    ctx.model_check("Overlap")
    r = ctx.rng("o")
    hs = []
    T = ["0:00:00.00", "0:00:00.01", "0:00:01.00", "0:00:02.00"]
    import itertools
    alltimes = list(itertools.product(T[:3], T[:3]))
    combos = list(itertools.product(alltimes, repeat=3))
    for i, c in enumerate(combos):
        hs.append(one(f"x{i}", evs=[[b(a), b(z)] for a, z in c]))
    for i in range(ctx.pick(3000, 40000)):
        n = r.choice([0, 1, 2, 3, 5, 8, 12])
        top = r.choice([3, 10, 100, 4294967295])
        def t():
            v = r.randint(0, top)
            s = f"{v // 360000}:{v // 6000 % 60:02}:{v // 100 % 60:02}.{v % 100:02}"
            return r.choice(["bad", s + ":", ""]) if r.random() < .005 else s
        hs.append(one(f"r{i}", evs=[[b(t()), b(t())] for _ in range(n)]))
    ps = ctx.conform("core", "overlap", "Overlap_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x["a"] = [[1, 1]]
    if ps and not ctx.violations:
        ctx.corrupt_probe("Overlap_TV", ps[0], None, mutate)
    ctx.require_cov("overlapping", "apart", "unreadable", "few")
    return "event lists = every three events over three instants, plus seeded lists of up to 12 events with ties, empty and reversed events and unreadable times"


CHECKS = {"C07": c07, "C08": c08, "C09": c09}
