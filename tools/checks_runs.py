"""R08 what the text of an event is drawn with (spec/Runs*.tla)."""
from checks_render import std
from vlib import b

FONTS = ["Arial", "DejaVu Sans", "Noto Sans", "No Such Font"]


def style(r, name):
    plain = r.random() < .3
    z = lambda *v: v[0] if plain else r.choice(v)
    return {"name": name, "fname": r.choice(FONTS[:2]), "fs": r.choice([20000, 24000, 12500, 48000]), "fscx": z(100000, 100000, 80000, 150000),
            "fscy": z(100000, 100000, 90000, 125000), "fsp": z(0, 0, 2000, 1500, -1000), "fr": z(0, 0, 0, 30000, -45000), "bs": z(1, 1, 1, 3),
            "bord": r.choice([0, 2000, 3500]), "shad": r.choice([0, 2000, 1500]), "b": r.randint(0, 1), "i": r.choice([0, 0, 1]), "u": z(0, 0, 1), "s": z(0, 0, 1),
            "col": [[r.choice([0, 90, 255]) for _ in range(3)] for _ in range(4)], "al": [r.choice([0, 0, 0, 100, 255]) for _ in range(4)]}


def value(r, n):
    """The value of a tag, in thousandths."""
    if n in ("fscx", "fscy"):
        return [r.choice([50, 80, 100, 110, 150, 200, r.randint(60, 190)]) * 1000]
    if n == "fs":
        return [r.choice([10, 18, 24, 36, 60]) * 1000 + r.choice([0, 0, 500])]
    if n in ("fr", "frx", "fry"):
        return [r.choice([0, 15, 30, -30, 45, -90, 90]) * 1000 + r.choice([0, 0, 250])]
    if n in ("fax", "fay"):
        return [r.choice([0, 200, -350, 1000])]
    if n in ("xshad", "yshad", "fsp"):
        return [r.choice([0, 1000, 2500, -2000, 5000])]
    if n in ("b", "i", "u", "s"):
        return [r.randint(0, 1)]
    if n in ("1c", "2c", "3c", "4c"):
        return [r.choice([0, 50, 128, 200, 255]) for _ in range(3)]
    if n in ("1a", "2a", "3a", "4a", "alpha"):
        return [r.choice([0, 64, 128, 200, 255])]
    return [r.choice([0, 1000, 2000, 4500, 8000])]              # bord, xbord, ybord, shad, blur, be


MOVING = ["fs", "fscx", "fscy", "fsp", "fr", "frx", "fry", "1c", "2c", "3c", "4c", "alpha", "bord", "shad", "blur", "be"]
SET = MOVING + ["b", "b", "i", "u", "s", "1a", "2a", "3a", "4a", "xbord", "ybord", "xshad", "yshad", "fax", "fay", "fs", "1c"]
# what a \t moves only in part, so that a later tag of it would be ambiguous
PARTS = {"1a": "alpha", "2a": "alpha", "3a": "alpha", "4a": "alpha", "xbord": "bord", "ybord": "bord", "xshad": "shad", "yshad": "shad"}


def tag(n, v=(), x="", r=None, acc=1, sub=()):
    alias = {"1c": ["1c", "c"], "fr": ["fr", "frz"]}.get(n, [n])
    return {"n": n, "as": r.choice(alias) if r else n, "v": list(v), "x": x, "acc": acc, "sub": list(sub)}


def scene(r):
    k = r.choice([(640, 360), (640, 360), (320, 180), (1280, 720), (1920, 1080), (960, 540), (0, 0)])
    names = r.choice([["Default", "B"], ["B", "Default"], ["B", "A"], ["Default", "B", "Default"], ["A", "B", "C"]])
    frm = r.choice([0, 100, 250])
    to = frm + r.choice([100, 100, 50, 200])
    used = set()

    def one(depth=0):
        x = r.random()
        if x < .55:
            n = r.choice(SET)
            if PARTS.get(n) in used:
                n = "fs"
            return tag(n, value(r, n) if r.random() < .88 or n in PARTS else [], r=r)
        if x < .63:
            if r.random() < .35:
                used.clear()                                   # \r drops what was moved
                return tag("r", x=r.choice(["", "", "B", "A", "Default", "Nobody", "Default "]).strip())
            return tag("r", x=r.choice(["", "B", "C"]))
        if x < .68:
            return tag("fn", x=r.choice(FONTS + [""]))
        if x < .82:
            subs = r.sample(MOVING, r.choice([1, 1, 2, 3]))
            used.update(subs)
            acc = r.choice([1, 1, 1, 2])
            ts = [] if r.random() < .4 else sorted(r.choice([0, 100, 200, 250, 500, 750, 1000, 1500]) if acc == 2 or r.random() < .7 else r.randint(0, 1500) for _ in range(2))
            return tag("t", ts, acc=acc, sub=[tag(s, value(r, s), r=r) for s in subs])
        if x < .88:
            return tag(r.choice(["k", "kf", "ko", "K"]), [r.choice([0, 10, 20, 30, 50, 1000000000])])
        if x < .92:
            n = r.choice(["clip", "iclip"])
            return tag(n, [r.randint(0, 300) for _ in range(4)])
        if x < .945:
            return r.choice([tag("fad", [r.choice([0, 200, 400, 1000]), r.choice([0, 300, 500])]),
                             tag("fade", [r.choice([0, 64, 255]) for _ in range(3)] + sorted(r.randint(0, 1500) for _ in range(4)))])
        if x < .96:
            return tag("org", [r.randint(0, 300), r.randint(0, 200)])
        if x < .98:
            return tag("pos", [r.randint(0, 300), r.randint(0, 200)])
        return {"n": "junk", "as": "", "v": [], "x": b(r.choice(["\\zz1", " ", "\\an5", "\\xyz(1,2)", "\\q2"])), "acc": 1, "sub": []}

    text, drawn = [], False
    for _ in range(r.choice([1, 2, 3, 4, 5, 7])):
        x = r.random()
        if x < .55:
            ts = [one() for _ in range(r.choice([1, 1, 2, 3, 4]))]
            if r.random() < .06:
                ts.insert(0, {"n": "junk", "as": "", "v": [], "x": b(r.choice(["note", "b1 is bold", "i", "fs20", "see (1)"])), "acc": 1, "sub": []})
            text.append({"p": "tags", "ts": ts, "x": []})
        elif x < .6:
            text.append({"p": r.choice(["break", "hard"]), "ts": [], "x": []})
        elif x < .65 and not drawn:
            drawn = True
            text.append({"p": "tags", "ts": [tag("p", [r.choice([1, 2])])], "x": []})
            text.append({"p": "text", "ts": [], "x": b(r.choice(["m 0 0 l 10 0 10 10 0 10", "m 5 5 b 1 2 3 4 5 6 l 40 9"]))})
            text.append({"p": "tags", "ts": [tag("p", [0])], "x": []})
        else:
            text.append({"p": "text", "ts": [], "x": b(r.choice(["ab", "Hello you", "x", "né", "日本", " a ", "(1,2)", "a, b"]))})
    for at, f in ((0, bytes.lstrip), (-1, bytes.rstrip)):      # spaces around a field are not part of it
        if text[at]["p"] == "text":
            text[at]["x"] = list(f(bytes(text[at]["x"])))
    return {"op": "runs", "w": 640, "hh": 360, "px": k[0], "py": k[1], "sbs": r.choice(["yes", "yes", "no", ""]), "styles": [style(r, n) for n in names],
            "st": r.choice(["Default", "Default", "B", "A", "Nobody"]), "from": frm, "to": to, "t": frm + r.choice([0, 0, 5, 10, 25, 50, 20, 30, 49, r.randint(0, to - frm - 1)]) % (to - frm),
            "text": text}


def scenes(r, i, n):
    return [{"op": "reset"}] + [scene(r) for _ in range(n)]


def r08(ctx):
    def mutate(recs):
        for x in recs:
            for y in x.get("runs", []):
                y["size"] += 900
    std(ctx, "Runs", "runs", ("2", "3"), ("2", "3"), (700, 12000), scenes, (450, 6000), (10, 20), mutate,
        ["runs/" + k for k in ("plain", "overridden", "reset", "animated", "karaoke", "faded", "none", "overridden+drawing")])
    return ("histories = texts of 2 (3) tag blocks over 23 tags at three times (a seeded sample) plus seeded ones: texts of up to seven pieces with nested "
            "animations, resets, karaoke, fades and drawings, over several styles, resolutions and times; non-trivial = a distinct history")


CHECKS = {"R08": r08}
