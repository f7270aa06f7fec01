"""R09 where the text and drawings of an event are placed (spec/Place*.tla)."""
from checks_render import std
from checks_runs import tag
from vlib import b

NONE = {"lvl": 0, "b": [0, 0, 0, 0]}


def style(r, name, ink):
    plain = r.random() < .4
    z = lambda *v: v[0] if plain else r.choice(v)
    return {"name": name, "fname": "DejaVu Sans", "fs": r.choice([20000, 24000, 12500, 48000]), "fscx": z(100000, 100000, 80000, 150000), "fscy": z(100000, 100000, 90000, 125000),
            "fsp": z(0, 0, 2000, 1500, 1000 if ink else -1000), "fr": 0, "bs": 1, "bord": 0 if ink else r.choice([0, 2000]), "shad": 0 if ink else r.choice([0, 2000]),
            "b": r.randint(0, 1), "i": 0 if ink else r.choice([0, 0, 1]), "u": 0, "s": 0,
            "col": [[255, 255, 255]] * 4, "al": [0] * 4, "num": r.randint(1, 9), "mg": [r.choice([0, 10, 20, 30, 45, r.randint(0, 99)]) for _ in range(3)]}


def scene(r):
    w, h = r.choice([(640, 360), (640, 360), (640, 300), (480, 480), (1280, 720)])
    px, py = r.choice([(w, h), (320, 180), (384, 288), (640, 480), (1920, 1080), (0, 0)])
    kind = r.choice(["run", "run", "lines", "lines", "ink", "drawing"])
    ink = kind == "ink"
    names = r.choice([["Default", "B"], ["B", "Default"], ["A", "B"], ["Default", "B", "B"]])
    frm = r.choice([0, 100, 250])
    to = frm + r.choice([100, 50, 200])
    far = px or w, py or h

    def spot():
        return [r.choice([0, r.randint(0, far[0]), far[0], -20 if r.random() < .3 else far[0] // 2]), r.choice([0, r.randint(0, far[1]), far[1] // 2, far[1] // 3])]

    def one():
        x = r.random()
        if x < .2:
            return tag("an", [r.choice([0, 10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 5])])
        if x < .3:
            return tag("a", [r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])])
        if x < .42:
            return tag("pos", spot())
        if x < .54:
            ts = r.choice([[], [], [0, 0], sorted(r.choice([0, 100, 250, 300, 500, 800, 1000, 2000]) for _ in range(2)), [700, 200], [500, 500]])
            return tag("move", spot() + spot() + ts)
        if x < .6:
            return tag("r", x=r.choice(["", "B", "A", "Default", "Nobody"]))
        if x < .74:
            return tag("fs", [r.choice([10, 18, 24, 36, 48]) * 1000 + r.choice([0, 0, 500])])
        if x < .82:
            return tag(r.choice(["fscx", "fscy"]), [r.choice([50, 80, 100, 120, 200]) * 1000])
        if x < .88:
            return tag("fsp", [r.choice([0, 1000, 2500, 6000] + ([] if ink else [-1000]))])
        if x < .94 or ink:
            return tag("b", [r.randint(0, 1)])
        return r.choice([tag("i", [r.randint(0, 1)]), tag("1c", [9, 8, 7]), {"n": "junk", "as": "", "v": [], "x": b(r.choice(["\\zz1", "\\an", "\\q2"])), "acc": 1, "sub": []}])

    blk = lambda *ts: {"p": "tags", "ts": list(ts), "x": []}
    txt = lambda v: {"p": "text", "ts": [], "x": b(v)}
    text, shape = [], NONE
    if kind == "drawing":
        x0, y0 = r.randint(0, 60), r.randint(0, 40)
        lvl = r.choice([1, 1, 2, 3])
        shape = {"lvl": lvl, "b": [x0, y0, x0 + r.choice([10, 40, 64]), y0 + r.choice([8, 20, 50])]}
        x0, y0, x1, y1 = shape["b"]
        if r.random() < .8:
            text.append(blk(*[one() for _ in range(r.choice([1, 2, 3]))]))
        text += [blk(tag("p", [lvl])), txt(f"m {x0} {y0} l {x1} {y0} {x1} {y1} {x0} {y1}")]
        if r.random() < .5:
            text.append(blk(tag("p", [0]), *[one() for _ in range(r.choice([0, 1]))]))
    else:
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            x = r.random()
            if x < .5:
                text.append(blk(*[one() for _ in range(r.choice([1, 1, 2, 3]))]))
            elif x < .75 or kind != "lines":
                text.append(txt("H" * r.randint(1, 4) if ink else r.choice(["ab", "Hello you", "x", "né", "Say it", "gjp", "W"])))
            else:
                text += [{"p": "break", "ts": [], "x": []}] * r.choice([1, 1, 1, 1, 2])
                if r.random() < .75:
                    text.append(txt(r.choice(["ab", "Hello", "gjp"])))
        if not any(p["p"] == "text" for p in text):
            text.append(txt("HH"))
        if r.random() < .15 and not ink:
            text.insert(r.randint(0, len(text)), {"p": "hard", "ts": [], "x": []})
    return {"op": "place", "w": w, "hh": h, "px": px, "py": py, "sbs": "yes", "styles": [style(r, n, ink) for n in names], "st": r.choice(["Default", "Default", "B", "Nobody"]),
            "from": frm, "to": to, "t": frm + r.randint(0, to - frm - 1), "emg": [r.choice([0, 0, 0, -1, 5, 40, r.randint(1, 120)]) for _ in range(3)], "pad": r.choice([1, 4]),
            "ink": ink, "shape": shape, "text": text}


def scenes(r, i, n):
    return [{"op": "reset"}] + [scene(r) for _ in range(n)]


def r09(ctx):
    def mutate(recs):
        for x in recs:
            for y in x.get("runs", []):
                y["x"] += 900
    std(ctx, "Place", "runs", ("2", "3"), ("2", "3"), (700, 12000), scenes, (450, 6000), (10, 20), mutate,
        ["place/" + k for k in ("bottom/run", "middle/run", "top/run", "pos/run", "move/run", "bottom/runs", "pos/runs", "bottom/lines", "move/lines", "top/lines", "middle/empty-line",
                                "pos/drawing", "move/drawing", "bottom/drawing", "top/drawing", "pos/run+seen", "bottom/run+seen", "pos/runs+seen")])
    return ("histories = short texts of 2 (3) pieces over 31 tags, text and breaks at two times (a seeded sample) plus seeded ones: texts of several runs, lines, drawings and "
            "painted ones, over alignments, margins, positions, movements, styles and resolutions; non-trivial = a distinct history")


CHECKS = {"R09": r09}
