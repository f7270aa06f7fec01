"""R01 event selection, R04 collisions, R06 render cache, R07 texture atlas, R12 dirty regions."""


def std(ctx, name, mode, n_mc, n_gen, cap, make, count, length, mutate, tags):
    ctx.model_check(f"{name}_MC", env={"MAXLEN": ctx.pick(*n_mc), "PRINTHIST": "no"})
    gen = ctx.generate(f"{name}_MC", f"{name}_Gen.cfg", env={"MAXLEN": ctx.pick(*n_gen), "PRINTHIST": "yes"})
    r = ctx.rng(mode)
    gen = r.sample(gen, min(len(gen), ctx.pick(*cap)))
    hs = gen + [{"id": f"r{i}", "ops": make(r, i, ctx.pick(*length))} for i in range(ctx.pick(*count))]
    ps = ctx.conform("renderer", mode, f"{name}_TV", hs, timeout=300)
    if ps and not ctx.violations:
        ctx.corrupt_probe(f"{name}_TV", ps[0], None, mutate)
    ctx.require_cov(*tags)


TEXTS = ["a", "b", "long text", "{\\b1}a", "{\\t(\\fs9)}a", "{\\move(1,2,3,4)}a", "{\\fade(1,2,3,4,5,6,7)}a", "{\\fad(9,9)}a", "{\\k9}a", "{\\K9}a", "{\\kf9}a"]


def selects(r, i, n):
    ops = [{"op": "reset"}]
    ts = sorted(r.sample(range(0, 2000), 6)) + [0, 360000, 35999999]
    few = r.random() < .6

    def tm():
        return r.choice(ts[:6]) if few or r.random() < .7 else r.choice([-1, r.randint(0, 3000), 360000, 35999998, 35999999])

    def ev():
        return {"ty": r.choice(["Dialogue"] * 8 + ["Comment"] * 2 + ["Picture"]), "s": tm(), "e": tm(), "tx": r.choice(TEXTS[:3] if r.random() < .7 else TEXTS)}
    k = r.randint(1, 12)
    for _ in range(n):
        x = r.random()
        if x < .2 or len(ops) == 1:
            if r.random() < .2:
                k = r.randint(0, 40)
            ops.append({"op": "script", "secs": [[ev() for _ in range(k)] for _ in range(r.choice([1, 1, 1, 1, 2, 0]))]})
        elif x < .27:
            ops.append({"op": "comments", "on": r.random() < .5})
        elif x < .3:
            ops.append({"op": "forget"})
        else:
            t = r.choice(ts) + r.choice([0, 0, -1, 1, 50, 100, 101])
            ops.append({"op": "select", "t": max(0, t)})
    return ops


def r01(ctx):
    def mutate(recs):
        for x in recs:
            x["act"] = x["act"][1:]
    std(ctx, "Select", "select", ("4", "5"), ("3", "4"), (3000, 60000), selects, (900, 9000), (25, 40), mutate,
        ["select/none", "select/same", "select/new", "select/gone", "select/animated", "forget/", "comments/", "script/"])
    return ("histories = every sequence of 3 (4) calls over seven scripts (seeded sample) plus seeded longer ones with up to 40 events, each script "
            "lying where the one before lay; non-trivial = a distinct history")


def boxes(r, big=False):
    return {"x": r.randint(0, 60), "y": r.randint(0, 60), "w": r.choice([0, 1, 5, 10, 40]), "hh": r.choice([0, 1, 5, 10, 30])}


def collides(r, i, n):
    ops = [{"op": "reset", "w": r.choice([100, 640, 0]), "hh": r.choice([60, 100, 480, 10, 0])}]

    def ev(pri=False):
        e = dict(boxes(r), layer=r.choice([0, 0, 0, 1, -1]), an=r.randint(1, 9))
        if pri:
            e["pri"] = r.choice([0, 1, 5, 100, -3])
        return e
    for _ in range(n):
        x = r.random()
        if x < .05:
            ops.append({"op": "margin", "m": r.choice([0, 2, 5])})
        elif x < .08:
            ops.append({"op": "clear"})
        elif x < .2:
            ops.append(dict(ev(), op="fixed"))
        elif x < .65:
            ops.append(dict(ev(), op="place"))
        elif x < .78:
            ops.append({"op": "smart", "thr": r.choice([0, 1, 50, 200]), "evs": [ev(True) for _ in range(r.randint(0, 6))]})
        elif x < .88:
            ops.append(dict(boxes(r), op="free", evs=[boxes(r) for _ in range(r.randint(0, 4))], bounds={"x": 0, "y": 0, "w": 100, "hh": r.choice([40, 60, 200])}))
        else:
            ops.append({"op": "pair", "a": boxes(r), "b": boxes(r), "m": r.choice([0, 1, 3])})
    return ops


def r04(ctx):
    def mutate(recs):
        for x in recs:
            if x["op"] == "place":
                x["ans"][0][1] += 2
    std(ctx, "Collide", "collide", ("3", "4"), ("3", "4"), (3000, 60000), collides, (900, 12000), (20, 30), mutate,
        ["place/stays-up", "place/stays-down", "place/moves-up", "place/moves-down", "place/squeezed-up", "place/squeezed-down", "free/found", "free/nowhere",
         "smart/ok", "pair/ok", "fixed/ok", "clear/ok", "margin/ok"])
    return ("histories = every sequence of 3 (4) placements over 27 boxes on two screens (seeded sample) plus seeded longer ones; non-trivial = a distinct history")


def caches(r, i, n):
    ops = [{"op": "reset", "maxt": r.choice([0, 1, 2, 3, 10]), "maxd": r.choice([0, 1, 2, 10])}]
    for k in range(n):
        key = r.randint(0, 5)
        x = r.random()
        ops.append({"op": "putt", "k": key, "v": k + 1} if x < .25 else {"op": "gett", "k": key} if x < .55 else {"op": "putd", "k": key, "v": r.choice([0, k + 1])} if x < .72
                   else {"op": "getd", "k": key} if x < .97 else {"op": "clear"})
    return ops


def r06(ctx):
    def mutate(recs):
        for x in recs:
            if x["op"] in ("gett", "getd") and x["ans"] >= 0:
                x["ans"] += 1
    std(ctx, "Caches", "caches", ("5", "6"), ("4", "5"), (3000, 60000), caches, (900, 12000), (30, 45), mutate,
        [f"{o}/{k}" for o in ("putt", "putd") for k in ("room", "full", "disabled")] + [f"{o}/{k}" for o in ("gett", "getd") for k in ("hit", "miss")] + ["clear"])
    return ("histories = every sequence of 4 (5) stores and look-ups over three keys and limits 0 to 2 (seeded sample) plus seeded longer ones over six keys that "
            "differ in one part each; non-trivial = a distinct history")


def atlases(r, i, n):
    w, h = r.choice([(4, 4), (8, 6), (1, 1), (5, 9), (12, 8), (0, 0), (0, 3)])
    ops = [{"op": "reset", "w": w, "hh": h}]
    for k in range(n):
        x = r.random()
        if x < .5:
            d = lambda m: r.choice([-1, 0, m, m + 1]) if r.random() < .15 else r.randint(1, max(1, m // 2))
            ops.append({"op": "alloc", "w": d(w), "hh": d(h)})
        elif x < .95:
            ops.append({"op": "write", "k": r.randint(0, 5), "v": r.randint(1, 9), "short": r.choice([0, 0, 0, 1, 4, 7])})
        else:
            ops.append({"op": "clear"})
    return ops


def r07(ctx):
    def mutate(recs):
        for x in recs:
            if x["op"] == "alloc" and x["ans"]:
                x["ans"][1] += 1
    std(ctx, "Atlas", "atlas", ("4", "5"), ("4", "5"), (3000, 40000), atlases, (900, 9000), (18, 28), mutate,
        ["alloc/given", "alloc/full", "alloc/toobig", "write/none", "write/whole", "write/short", "clear"])
    return ("histories = every sequence of 4 (5) operations over nine sizes on a 4x4 atlas (seeded sample) plus seeded longer ones on seven atlases; "
            "non-trivial = a distinct history")


def regions(r, i, n):
    ops = [{"op": "reset"}]
    span = r.choice([12, 40, 200])

    def box():
        return {"x": r.randint(0, span), "y": r.randint(0, span), "w": r.choice([0, 1, 3, 10, 30]), "hh": r.choice([0, 1, 3, 10, 30])}
    for _ in range(n):
        x = r.random()
        if x < .65:
            ops.append(dict(box(), op="add"))
        elif x < .93:
            ops.append({"op": "pair", "a": box(), "b": box(), "px": r.randint(0, span), "py": r.randint(0, span)})
        else:
            ops.append({"op": r.choice(["clear", "forget"])})
    return ops


def r12(ctx):
    def mutate(recs):
        for x in recs:
            x["list"] = x["list"][1:]
    std(ctx, "Regions", "regions", ("3", "4"), ("3", "4"), (3000, 60000), regions, (900, 9000), (20, 30), mutate,
        ["add/listed", "add/merged", "clear/listed", "forget/listed", "pair/overlap", "pair/apart", "pair/touch"])
    return ("histories = every sequence of 3 (4) operations over small regions (seeded sample) plus seeded longer ones; non-trivial = a distinct history")


CHECKS = {"R01": r01, "R04": r04, "R06": r06, "R07": r07, "R12": r12}
