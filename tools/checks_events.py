"""E11 event commands, E12 event queries (spec/EvCmd*.tla)."""
from vlib import b
import gendoc


def doc(r):
    while True:
        x = r.random()
        if x < .3:
            ls = ["[Script Info]", "Title: " + r.choice(["a", "[Events]", "Format: x"]), "", "[Events]"] + gendoc.event_lines(r, False, r.randint(1, 7))
        elif x < .5:
            ls = ["[Events]"] + gendoc.event_lines(r, True, r.randint(0, 4)) + r.choice([[], ["[V4+ Styles]"] + gendoc.style_lines(r)]) \
                + ["[Events]"] + gendoc.event_lines(r, True, r.randint(1, 4))
        elif x < .7:
            ls = ["[Events]", "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text"]
            for _ in range(r.randint(2, 8)):
                ls.append("%s%s: %s,%s,%s,%s,%s,0,0,0,%s,%s" % (
                    gendoc.sp(r), r.choice(["Dialogue", "Dialogue", "Comment", "Sound"]), r.choice(["0", "0", "1", "2", "-1", "x", "+1"]),
                    when(r), when(r), r.choice(["A", "B", "a"]), r.choice(["", "Bob", "bo", "Ann"]),
                    r.choice(["", "", "fx", "Fade(1,2)", "F(1", "G)(2,3)", "é(,)"]), r.choice(["one", "Two, three", "(a, b)", " pad ", "日本é", ""])))
                if r.random() < .15:
                    ls.append(r.choice(["", "; c", "junk", "  ", "Format: Start, End, Text"]))
        elif x < .97:
            ls = gendoc.document(r, r.random() < .3)
            ls = ls if isinstance(ls, list) else [ls]
        else:
            ls = ["[Script Info]", "Title: none"]
        t = r.choice(["\n", "\n", "\n", "\r\n"]).join(ls) if not isinstance(ls, str) else ls
        t += r.choice(["", "\n", "\n", "\n\n"])
        if len(t.encode()) < 1600:
            return t


def when(r):
    return r.choice(["0:00:01.00", "0:00:02.00", "0:00:03.00", "0:00:01.50", "0:00:10.00", " 0:00:04.00 ", "0:00:05", "bad", "",
                     "11930:27:52.95", "0:00:00.00", gendoc.time(r)])


def idx(r, n):
    return [r.randint(0, n) for _ in range(r.choice([0, 1, 1, 2, 3]))]


def command(r, n):
    via = r.choice(["cmd", "exec", "fluent"])
    k = r.randint(0, n)
    x = r.random()
    if x < .18:
        return {"op": "toggle", "via": via, "idx": idx(r, n)}
    if x < .38:
        big = 2147483647
        ds, de = (r.choice([0, 0, 100, -100, 250, -360000, 5, big, -big]) for _ in range(2))
        return {"op": "retime", "via": via, "idx": idx(r, n), "ds": ds, "de": de if r.random() < .6 else ds}
    if x < .56:
        return {"op": "effect", "via": via, "idx": idx(r, n), "how": r.choice(["set", "clear", "append", "prepend"]),
                "e": b(r.choice(["fx", "Fade(1,2)", "", "é", "a;b"]))}
    if x < .68:
        return {"op": "split", "via": via, "n": k, "time": b(r.choice(["0:00:01.50", "0:00:02.00", "0:00:02.5", "0:00:30.00", "0:30:00.00", "bad", "0:00:01.10", "0:00:01.00", "0:00:03.00", "0:00:10.00", when(r), when(r)]))}
    if x < .8:
        return {"op": "merge", "via": via, "n": k, "m": r.choice([k + 1, k + 1, k + 2, k, r.randint(0, n)]), "sep": b(r.choice([" ", "", "\\N", ", ", "é"]))}
    if x < .88:
        return {"op": "delete", "via": via, "n": k}
    if x < .94:
        return {"op": "delmany", "via": via, "n": r.randint(0, 1), "idx": idx(r, n)}
    return {"op": "edit", "via": "cmd", "n": k, "mods": [[r.choice(["layer", "start", "end", "style", "name", "margin_l", "margin_r", "margin_v",
            "effect", "text", "text", "nonsense" if r.random() < .2 else "text"]), b(r.choice(["", "v", "0:00:07.00", "é w"]))] for _ in range(r.randint(0, 3))]}


def query(r, n):
    o = lambda p, *v: [r.choice(v)] if r.random() < p else []
    pat = lambda p, *v: [b(x) for x in o(p, *v)]
    by = r.choice(["", "start", "end", "duration", "style", "speaker", "layer", "index", "text"])
    return {"op": "query", "ty": o(.25, "Dialogue", "Dialogue", "Comment", "Sound"), "style": pat(.2, "a", "A", "B", "default", "Sign", ""),
            "speaker": pat(.12, "bo", "Bob", "n"), "text": pat(.25, "one", "TWO", "a", "日", "é", ", ", "Hello"), "effect": pat(.1, "F", "fade(1", "x"),
            "layer": o(.15, 0, 1, 2), "time": o(.2, [0, 500], [100, 300], [0, 1000000], [150, 2147483647]), "exact": r.random() < .4,
            "by": by, "then": r.choice(["", "", "start", "style", "index", "text", "layer", "speaker"]) if by else "", "up": r.random() < .6,
            "limit": o(.2, 0, 1, 2, 50), "whole": r.random() < .5}


def hists(ctx, n, q):
    r = ctx.rng("events")
    gen = ctx.generate("EvCmd_MC", "EvCmd_Gen.cfg", env={"MAXLEN": ctx.pick("2", "3"), "PRINTHIST": "yes"})
    gen = r.sample(gen, min(len(gen), ctx.pick(700, 12000)))
    if q:
        for h in gen:
            out = []
            for op in h["ops"]:
                out.append(op)
                out.append(query(r, 4))
            h["ops"] = out
    for i in range(n):
        ops = [{"op": "reset", "t": b(doc(r))}]
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if q and x < .7:
                ops.append(query(r, 6) if r.random() < .85 else {"op": "get", "n": r.randint(0, 6), "via": r.choice(["acc", "ops"])})
            elif x < .9:
                ops.append(command(r, r.choice([1, 3, 6])))
            else:
                ops.append({"op": "undo"})
        gen.append({"id": f"r{i}", "ops": ops})
    return gen


RULE = ("histories = every sequence of 2 (3 when thorough) of EvCmd_MC's commands on its 3 documents (a seeded sample) plus seeded "
        "histories of %s over realistic, custom-format, CRLF, multi-section and damaged documents; non-trivial = a distinct history")


def e11(ctx):
    ctx.model_check("EvCmd_MC", "EvCmd_MC.cfg", env={"MAXLEN": ctx.pick("2", "3"), "PRINTHIST": "no"})
    ps = ctx.conform("editor", "cmds", "EvCmd_TV", hists(ctx, ctx.pick(1500, 40000), False))

    def mutate(recs):
        for x in recs:
            if x["op"] == "toggle" and not x["panic"] and x["after"]:
                x["after"] = x["after"] + [33]
    if ps and not ctx.violations:
        ctx.corrupt_probe("EvCmd_TV", ps[0], None, mutate)
    ctx.require_cov(*[f"{o}/{k}" for o in ("toggle", "retime", "effect", "delmany") for k in ("nothing", "one", "many")],
                    "split/one", "split/refused", "merge/one", "merge/refused", "delete/one", "delete/refused", "edit/one", "edit/refused", "undo")
    return RULE % "up to 6 commands and undos, directly, as an undoable unit or through the fluent interface,"


def e12(ctx):
    ctx.model_check("EvCmd_MC", "EvCmd_MC.cfg", env={"MAXLEN": "1", "PRINTHIST": "no"})
    ps = ctx.conform("editor", "cmds", "EvCmd_TV", hists(ctx, ctx.pick(2500, 60000), True))

    def mutate(recs):
        for x in recs:
            if x["op"] == "query" and not x["panic"]:
                x["count"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("EvCmd_TV", ps[0], None, mutate)
    ctx.require_cov("query/some", "query/none", "query/all", "query/sorted/some", "query/sorted/all", "get", "get/none")
    return RULE % "queries (filters, orders, limits) between commands"


CHECKS = {"E11": e11, "E12": e12}
