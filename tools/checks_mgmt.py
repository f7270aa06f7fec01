"""E07 sessions, E08 event channel, E09 extension manager (spec/Sessions*.tla, Channel*.tla, ExtLife*.tla)."""
from vlib import b


def sess(r, i, n):
    marked, names = False, ["a", "b", "c", "d", "é", ""]
    ops = [{"op": "reset", "max": r.choice([0, 1, 2, 3, 6]), "auto": r.random() < .8}]
    for _ in range(n):
        x, nm = r.random(), r.choice(names)
        if x < .3:
            ops.append({"op": "create", "id": nm, "t": b(r.choice(["", "x", "[Script Info]\n", "é"]))})
        elif x < .4:
            ops.append({"op": "remove", "id": nm})
        elif x < .5:
            ops.append({"op": "switch", "id": nm})
        elif x < .58:
            ops.append({"op": "read", "id": nm})
        elif x < .88:
            ops.append({"op": "edit", "id": nm, "t": b(r.choice(["", "y", "日本", "\n"])), "ok": r.random() < .7})
        elif x < .91:
            ops.append({"op": "arena"})
        elif x < .95 and i % 5 == 0:
            marked = True
            ops.append({"op": "mark"})
        else:
            ops.append({"op": "cleanup", "age": r.choice(["any", "none"] + ["marked"] * 3 * marked)})
    return {"id": f"s{i}", "ops": ops}


def e07(ctx):
    ctx.model_check("Sessions_MC", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "no"})
    gen = ctx.generate("Sessions_MC", "Sessions_Gen.cfg", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "yes"})
    r = ctx.rng("s")
    gen = r.sample(gen, min(len(gen), ctx.pick(3000, 60000)))
    hs = gen + [sess(r, i, ctx.pick(14, 25)) for i in range(ctx.pick(700, 8000))]
    ps = ctx.conform("editor", "sessions", "Sessions_TV", hs, timeout=300)

    def mutate(recs):
        for x in recs:
            x["n"] += 1
    if ps and not ctx.violations:
        ctx.corrupt_probe("Sessions_TV", ps[0], None, mutate)
    ctx.require_cov("create/", "create/SessionLimitExceeded", "switch/", "remove/", "remove/DocumentNotFound", "edit/", "edit/CommandFailed",
                    "edit/DocumentNotFound", "read/", "cleanup/any", "cleanup/marked", "cleanup/none")
    return ("histories = every sequence of 3 (4) operations over two names and limits 0 to 2 (seeded sample) plus seeded longer ones over six names; "
            "non-trivial = a distinct history")


EVS = ["TextInserted", "TextDeleted", "TextReplaced", "SelectionChanged", "CursorMoved", "DocumentSaved", "DocumentLoaded", "UndoPerformed",
       "RedoPerformed", "ValidationCompleted", "SearchCompleted", "ParsingCompleted", "ExtensionChanged", "ConfigChanged", "*custom", "*TextInserted", "*"]


def chan(r, i, n):
    types = [e for e in EVS if e[0] != "*"] + ["custom", "", "nosuch"]
    ops = [{"op": "reset", "max": r.choice([0, 1, 3, 100]), "batching": r.random() < .5}]
    few = r.sample(EVS, 5)
    for k in range(n):
        x = r.random()
        ev = lambda: r.choice(few if r.random() < .7 else EVS)
        if x < .3:
            o = {"op": "register", "pri": r.choice([0, 0, 1, -1, 5, 2147483647, -2147483648]), "mods": r.choice(["any"] * 3 + ["yes", "no"]),
                 "cur": r.choice(["any"] * 4 + ["yes", "no"]), "fail": [ev()] if r.random() < .15 else []}
            if r.random() < .5:
                o["inc"] = r.sample(types, r.randint(0, 4)) + [e.lstrip("*") for e in r.sample(few, r.randint(0, 3))]
            if r.random() < .5:
                o["exc"] = r.sample(types, r.randint(0, 3))
            ops.append(o)
        elif x < .38:
            ops.append({"op": "unregister", "id": r.randint(0, 6)})
        elif x < .4:
            ops.append({"op": "clear"})
        elif x < .7:
            ops.append({"op": "dispatch", "ev": ev(), "n": 100 * k})
        elif x < .8:
            ops.append({"op": "batch", "evs": [ev() for _ in range(r.randint(0, 4))], "n": 100 * k})
        elif x < .84:
            ops.append({"op": "facts", "ev": r.choice(EVS), "n": k})
        else:
            ops.append(r.choice([{"op": "post", "ev": ev(), "n": 100 * k}] * 5 + [{"op": "drain"}] * 2 + [{"op": "setup"}, {"op": "hangup"}]))
    return {"id": f"c{i}", "ops": ops}


def e08(ctx):
    ctx.model_check("Channel_MC", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "no"})
    gen = ctx.generate("Channel_MC", "Channel_Gen.cfg", env={"MAXLEN": ctx.pick("3", "4"), "PRINTHIST": "yes"})
    r = ctx.rng("c")
    gen = r.sample(gen, min(len(gen), ctx.pick(4000, 60000)))
    facts = [{"id": "facts", "ops": [{"op": "reset", "max": 1, "batching": False}] + [{"op": "facts", "ev": e, "n": 7} for e in EVS]}]
    hs = gen + facts + [chan(r, i, ctx.pick(20, 30)) for i in range(ctx.pick(1200, 12000))]
    ps = ctx.conform("editor", "channel", "Channel_TV", hs, timeout=300)

    def mutate(recs):
        for x in recs:
            if len(x["log"]) > 1:
                x["log"].reverse()
    if ps and not ctx.violations:
        ctx.corrupt_probe("Channel_TV", ps[0], None, mutate)
    ctx.require_cov("register/ok", "register/refused", "unregister/ok", "clear/ok", "dispatch/nobody", "dispatch/one", "dispatch/several", "dispatch/refused",
                    "batch/several", "batch/refused", "post/ok", "post/refused", "drain/ok", "facts/ok")
    return ("histories = every sequence of 3 (4) operations over six kinds of handlers and three events (seeded sample) plus seeded longer ones over all "
            "event types; non-trivial = a distinct history")


def ext(r, i, n):
    ops = [{"op": "reset"}]
    for k in range(n):
        x, nm = r.random(), r.choice("aabbc")
        if x < .25:
            ops.append({"op": "load", "name": nm, "deps": r.sample(["a", "b", "c", "zz"], r.choice([0, 0, 0, 1, 1, 2])),
                        "cmds": r.sample(["x", "y", "z"], r.randint(0, 2)), "init": r.random() < .8, "down": r.random() < .8})
        elif x < .5:
            ops.append({"op": "init", "name": r.choice([nm] * 9 + ["zz"])})
        elif x < .6:
            ops.append({"op": "unload", "name": nm})
        elif x < .9:
            ops.append({"op": "run", "name": r.choice("xxyyz"), "ok": r.random() < .8})
        else:
            ops.append(r.choice([{"op": "config", "name": r.choice("kq"), "v": f"v{k}"}, {"op": "data", "name": nm, "v": f"v{k}"}]))
    return {"id": f"e{i}", "ops": ops}


def e09(ctx):
    ctx.model_check("ExtLife_MC", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "no"})
    gen = ctx.generate("ExtLife_MC", "ExtLife_Gen.cfg", env={"MAXLEN": ctx.pick("4", "5"), "PRINTHIST": "yes"})
    r = ctx.rng("e")
    gen = r.sample(gen, min(len(gen), ctx.pick(4000, 60000)))
    hs = gen + [ext(r, i, ctx.pick(20, 30)) for i in range(ctx.pick(1200, 12000))]
    ps = ctx.conform("editor", "exts", "ExtLife_TV", hs, timeout=120)

    def mutate(recs):
        for x in recs:
            if x["listed"]:
                x["listed"] = []
    if ps and not ctx.violations:
        ctx.corrupt_probe("ExtLife_TV", ps[0], None, mutate)
    ctx.require_cov(*[f"{o}/{k}" for o in ("load", "init", "unload", "run") for k in ("ok", "refused")])
    return ("histories = every sequence of 4 (5) operations over two extensions (seeded sample) plus seeded longer ones over three; "
            "non-trivial = a distinct history")


CHECKS = {"E07": e07, "E08": e08, "E09": e09}
