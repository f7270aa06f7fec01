"""C14 extension registry, C16 built-in tag handlers (spec/Plugins*.tla, spec/TagArgs*.tla)."""
from vlib import b
import gendoc

NAMES = ("b i u s bord shad be a an q fade fad t clip fn fs fe k kf ko kt r org pos move fr frx fry frz fscx fscy fax fay fsp n N h c alpha "
         "1c 2c 3c 4c 1a 2a 3a 4a").split()


def one(i, **op):
    return {"id": i, "ops": [dict(op="reset", **op)]}


def num(r):
    x = r.random()
    if x < .4:
        return str(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 100, 150, 255, 256, 900, 1000, -1, -5]))
    if x < .6:
        return r.choice(["", "+", "-", "--"]) + r.choice(["1.5", ".5", "5.", "0.0", "007", "0", "1.2.3", "1e3", "1E-2", "1e", "٣", "1_0", "0x10"])
    if x < .7:
        return r.choice(["4294967295", "4294967296", "2147483647", "2147483648", "00000000000001", "99999999999999999999"])
    return r.choice(["", " ", "a", "é", " 5 ", "\t1", "m 0 0 l 1 1", "&H00FF00&", "&HFF&", "&HFFFF&", "&HGG&", "&hFF&", "&H00é0&", "Arial", "日本", "s", "\\fs20"])


def args(r, name):
    x = r.random()
    if x < .35:
        return num(r)
    if name in ("c", "1c", "2c", "3c", "4c", "alpha", "1a", "2a", "3a", "4a") and x < .8:
        t = "&H" + "".join(r.choice("0123456789abcdefABCDEFg") for _ in range(r.choice([2, 6, 6, 5, 8, 1]))) + "&"
        return r.choice(["", " "]) + (t if r.random() < .85 else t[:-1]) + r.choice(["", "  "])
    k = r.choice([1, 2, 2, 4, 4, 6, 7, 7, 3])
    if name == "fade" and r.random() < .7:
        k = 7
    plain = r.random() < .6
    t = r.choice([",", ",", ", "]).join(str(r.randint(0, 300)) if plain else num(r) for _ in range(k))
    return r.choice(["(%s)", "(%s)", "(%s)", " ( %s ) ", "%s", "(%s", "%s)", "((%s))"]) % t


def c16(ctx):
    ctx.model_check("TagArgs_MC", "TagArgs_MC.cfg", env={"MAXLEN": ctx.pick("2", "3"), "PRINTHIST": "no"})
    hs = ctx.generate("TagArgs_MC", "TagArgs_Gen.cfg", env={"MAXLEN": "3", "PRINTHIST": "yes"})
    hs = ctx.rng("gen").sample(hs, min(len(hs), ctx.pick(800, 8000)))
    hs.append(one("names", k="names"))
    r = ctx.rng("a")
    for i in range(ctx.pick(12000, 200000)):
        n = NAMES[i % len(NAMES)]
        a = args(r, n)
        hs.append(one(f"a{i}", k="args", name=n, s=b(a)))
        if i % 2 and not any(c in a for c in "{}\\"):
            hs.append(one(f"b{i}", k="block", s=b("\\" + n + a)))
    ps = ctx.conform("core", "args", "TagArgs_TV", hs)

    def mutate(recs):
        for x in recs:
            if x["k"] == "args":
                x["ok"] = not x["ok"]
    if ps and not ctx.violations:
        ctx.corrupt_probe("TagArgs_TV", ps[0], None, mutate)
    kinds = "weight toggle bit width size legacy numpad wrap count number none name colour alpha point pos move transform fad fade clip".split()
    ctx.require_cov("names", "any yes", "block processed", "block failed", *[f"{k} {v}" for k in kinds for v in ("yes", "no")])
    return "arguments = every text of up to 3 pieces of TagArgs_MC's alphabet for one tag of every kind (sampled in the quick tier) and seeded near-miss arguments for every built-in tag, alone and inside override blocks read with all handlers registered"


SECS = ["Aegisub Project", "Aegisub Extradata", "Custom", "custom", "Custom 2", "Fontss", "Ünï"]


def doc(r):
    ls = "\n".join(gendoc.document(r, r.random() < .3)).split("\n")[:r.randint(3, 25)]
    for _ in range(r.randint(0, 4)):
        head = r.choice(["[%s]", "[%s]", "[%s]", "[ %s ]", " [%s] trailing", "[%s", "[%s]\r"]) % r.choice(SECS)
        body = [r.choice(["key: v", "x=1", "", " ", "\t", "Style: a,b", "Dialogue: x", "Format: a", "; c", "!x", "é", "data\r", "[open", "Title: q", " lead"]) for _ in range(r.randint(0, 5))]
        at = r.randint(0, len(ls))
        ls[at:at] = [head] + body
    t = "\n".join(ls)
    return t if len(t) < 1000 else doc(r)


def history(r, i):
    ops, who = [{"op": "reset"}], 1
    for _ in range(r.randint(2, 12)):
        x = r.random()
        a = r.choice(["processed", "failed", "ignored"])
        n = r.choice(["pos", "x", "b"])
        if x < .2:
            ops.append({"op": "tag", "name": b(n), "who": who, "answer": a}); who += 1
        elif x < .45:
            ops.append({"op": "section", "name": b(r.choice(SECS)), "who": who, "answer": a}); who += 1
        elif x < .5:
            ops.append({"op": "untag", "name": b(n)})
        elif x < .56:
            ops.append({"op": "unsection", "name": b(r.choice(SECS))})
        elif x < .58:
            ops.append({"op": "clear"})
        elif x < .64:
            ops.append({"op": "has", "name": b(r.choice([n] + SECS))})
        elif x < .7:
            ops.append({"op": "run_tag", "name": b(n), "args": b(r.choice(["", "(1,2)", "é"]))})
        elif x < .76:
            ops.append({"op": "run_section", "name": b(r.choice(SECS)), "header": b(r.choice(SECS)), "lines": [b("l"), b("")]})
        elif x < .82:
            nm = r.choice(SECS[:2])
            big = "x" * r.choice([5, 9999, 10000, 10001, 10001]) if r.random() < .12 else "p"
            ops.append({"op": "aegisub", "name": b(nm), "header": b(r.choice([nm, nm.lower(), nm.upper(), "Other", nm + " "])),
                        "lines": [b(r.choice(["a=b", "a: b", " ! x", "!", "", "  ", "bad", big, "é:"])) for _ in range(r.randint(0, 3))]})
        else:
            ops.append({"op": "read", "t": b(doc(r))})
    return {"id": f"r{i}", "ops": ops}


def c14(ctx):
    n = ctx.pick("3", "4")
    ctx.model_check("Plugins_MC", "Plugins_MC.cfg", env={"MAXLEN": n, "PRINTHIST": "no"})
    hs = ctx.generate("Plugins_MC", "Plugins_Gen.cfg", env={"MAXLEN": n, "PRINTHIST": "yes"})
    hs = ctx.rng("gen").sample(hs, min(len(hs), ctx.pick(1500, 40000)))
    r = ctx.rng("h")
    hs += [history(r, i) for i in range(ctx.pick(700, 15000))]
    ps = ctx.conform("core", "plugins", "Plugins_TV", hs)

    def mutate(recs):
        for x in recs:
            x["log"] = x["log"] + [["tag", 99, []]]
    if ps and not ctx.violations:
        ctx.corrupt_probe("Plugins_TV", ps[0], None, mutate)
    ctx.require_cov("tag added", "tag duplicate", "section added", "section duplicate", "remove none", "remove tag", "remove section", "clear", "has",
                    "run tag processed", "run tag failed", "run tag none", "run section processed", "run section none",
                    "aegisub processed", "aegisub failed", "aegisub ignored", "read untouched", "read ignored", "read shown")
    return "histories = every sequence of up to 3 (thorough: 4) registry operations over two names (sampled), and seeded histories that register handlers of every outcome and read generated documents with known, unknown and damaged sections"


CHECKS = {"C14": c14, "C16": c16}
