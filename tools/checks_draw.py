"""R13 drawing commands, R05 painting."""
from checks_render import std
from vlib import b


def number(r):
    x = r.random()
    if x < .5:
        return str(r.randint(-40, 400))
    if x < .8:
        return f"{r.choice(['', '-', '+'])}{r.randint(0, 300)}.{r.randint(0, 9)}"
    return r.choice(["0", "-0", ".5", "5.", "-.5", "+1", "007", "1.50", "12.0", "-3.", "1920"])


def drawing(r):
    out = []
    clean = r.random() < .6
    for _ in range(r.randint(0, 8)):
        c = r.choice("mmllllbbnspc" if r.random() < .97 else "xqe")
        n = {"m": 2, "n": 2, "l": 2, "b": 6, "s": 6, "p": 6}.get(c, 0) * r.choice([1, 1, 1, 2, 3])
        if c in "sp" and n and r.random() < .4:
            n += 2
        if not clean and r.random() < .15:
            n = max(0, n + r.choice([-3, -2, -1, 1]))
        ns = [number(r) for _ in range(n)]
        if c == "s" and n >= 6 and r.random() < .3:
            ns[-2:] = ns[:2]
        out.append(c.upper() if r.random() < .1 else c)
        out += ns
    if not clean and r.random() < .2:
        out.insert(r.randint(0, len(out)), r.choice(["-", ".", "1-2", "1.2.3", "é", "5", "--1", "+", "7,8", "{", "}"]))
    t = ""
    for w in out:
        t += w + ("" if w.isalpha() and r.random() < .3 else r.choice([" ", " ", " ", " ", "  ", "\t", "\u3000", " \r\n "]))
    if r.random() < .15:
        t += r.choice(["\\p0}", "\\", "\\N m 1 2 l 3 4", "\\x"])
    return t


def draws(r, i, n):
    return [{"op": "reset"}] + [{"op": "draw", "s": b(drawing(r))} for _ in range(n)]


def r13(ctx):
    def mutate(recs):
        for x in recs:
            if x.get("path"):
                x["path"].pop()
    std(ctx, "Draw", "draw", ("3", "4"), ("4", "5"), (4000, 100000), draws, (500, 6000), (12, 20), mutate,
        ["draw/error/nothing", "draw/empty/nothing"] + [f"draw/{k}/outline" for k in "lbspc"])
    return ("drawings = every sequence of 4 (5) words among fourteen (seeded sample) plus seeded ones of up to eight commands, right and wrong; "
            "non-trivial = a distinct drawing")


CHECKS = {"R13": r13}


def scene(r):
    w, h = r.choice([(12, 8), (12, 8), (8, 6), (16, 5)])
    k = r.choice([1, 1, 1, 2, 10, 0.5])
    px, py = r.choice([(0, 0)] + [(max(1, int(w * k)), max(1, int(h * r.choice([k, k, k, 1]))))] * 5)
    fx, fy = (px or 1920) / w, (py or 1080) / h          # script units to a pixel

    def X(lo, hi):
        v = r.randint(lo, hi) * fx
        return int(v) if r.random() < .85 else int(v) + r.randint(-2, 2)

    def Y(lo, hi):
        v = r.randint(lo, hi) * fy
        return int(v) if r.random() < .85 else int(v) + r.randint(-2, 2)

    def rect():
        x0, y0 = X(-2, 5), Y(-2, 4)
        x1, y1 = x0 + X(1, 8), y0 + Y(1, 6)
        if x1 <= x0:
            x1 = x0 + 2
        if y1 <= y0:
            y1 = y0 + 2
        if r.random() < .15 and x1 - x0 > 2 and y1 - y0 > 2:           # an L
            xm, ym = r.randint(x0 + 1, x1 - 1), r.randint(y0 + 1, y1 - 1)
            p = [[x0, y0], [xm, y0], [xm, ym], [x1, ym], [x1, y1], [x0, y1]]
        else:
            p = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        return p if r.random() < .7 else p[::-1]

    def event():
        lvl = r.choice([1] * 6 + [2, 3, 4])
        s = r.choice([0, 100, 150, 200, 200])
        kind = r.choice(["none", "pos", "pos", "pos", "move", "move"])
        p = [] if kind == "none" else [X(0, w), Y(0, h)]
        if kind == "move":
            a, c = r.choice([(0, 0), (0, 0), (0, 500), (200, 700), (300, 300), (500, 300), (4, 9), (100, 100000)])
            p += [X(0, w), Y(0, h), a, c]
        fad = []
        if r.random() < .3:
            fad = r.choice([[400, 400], [0, 300], [500, 0], [0, 0], [3000, 3000], [5, 5], [r.randint(0, 2000), r.randint(0, 2000)],
                            [255, 0, 255, 0, 200, 500, 900], [r.choice([0, 64, 255]) for _ in range(3)] + sorted(r.randint(0, 2000) for _ in range(4)),
                            [r.choice([0, 64, 255]) for _ in range(3)] + [r.randint(0, 1500) for _ in range(4)]])
        al = [r.choice([0, 64, 128, 200, 255]) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3]))]
        tags = ["p", "an", "at", "c", "al", "clip", "fad"]
        r.shuffle(tags)
        pl = [rect() for _ in range(r.choice([1, 1, 1, 2, 2, 3, 0]))]
        if lvl > 1:
            m = 2 ** (lvl - 1) if r.random() < .8 else 1
            pl = [[[x * m, y * m] for x, y in q] for q in pl]
        c = [X(0, w), Y(0, h), X(0, w), Y(0, h)] if r.random() < .35 else []
        return {"ly": r.choice([0, 0, 0, 1, 2, -1]), "s": s, "e": s + r.choice([100, 100, 50, 20, 7]), "st": r.choice(["Default", "Default", "B", "Nobody"]), "an": r.choice([0, 7, 7] + list(range(1, 10))),
                "kind": kind, "p": p, "col": [] if r.random() < .3 else [r.choice([0, 50, 128, 255]) for _ in range(3)], "al": al,
                "aln": [r.choice(["alpha", "1a"]) for _ in al], "clip": c, "inv": r.random() < .5, "lvl": lvl, "polys": pl, "fad": fad, "tags": tags, "brk": r.choice([9, 9, 1, 3, 6]), "end": r.random() < .3}
    names = r.choice([["Default", "B"], ["B", "Default"], ["B"], ["B", "A", "B"], ["Default", "B", "Default"]])
    styles = [{"name": n, "rgb": [r.choice([0, 90, 255]) for _ in range(3)], "alpha": r.choice([0, 0, 0, 100, 255]), "an": r.randint(1, 9)} for n in names]
    evs = [event() for _ in range(r.choice([1, 1, 1, 2, 3, 4, 5]))]
    t = r.choice(evs)["s"] + r.choice([0, 0, 10, 20, 25, 50, 5, 7, 30, 40, 60, 90, 99])
    return {"op": "paint", "w": w, "hh": h, "px": px, "py": py, "styles": styles, "evs": evs, "t": t}


def scenes(r, i, n):
    return [{"op": "reset"}] + [scene(r) for _ in range(n)]


def r05(ctx):
    def mutate(recs):
        for x in recs:
            if x["op"] == "paint":
                x["img"] = [[min(255, c + 20) for c in p] if any(p) else p for p in x["img"]]
    std(ctx, "Paint", "paint", ("2", "3"), ("2", "3"), (1200, 9000), scenes, (130, 2500), (16, 20), mutate,
        ["paint/nothing", "paint/several", "paint/none", "paint/pos", "paint/move", "paint/pos+clip", "paint/pos+fade", "paint/pos+clip+fade", "paint/unseen"])
    return ("scenes = every stack of up to 2 (3) of ten events, and seeded ones of up to five events over fifteen frame and script sizes; every pixel that "
            "no edge runs through is compared; non-trivial = a distinct scene")


CHECKS = {"R13": r13, "R05": r05}
