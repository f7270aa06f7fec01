"""R14 how the text of an event is broken into lines (spec/Wrap*.tla)."""
from checks_place import style as place_style
from checks_render import std
from checks_runs import tag
from vlib import b

WORDS = ["a", "I", "of", "the", "Hello", "subtitle", "né", "wide", "W", "jumping", "illi", "MMM", "over-long-compound", "fox,", "won't"]


def scene(r):
    w, h = r.choice([(640, 360), (640, 360), (480, 270), (320, 180), (1280, 720)])
    px, py = r.choice([(w, h), (320, 180), (640, 480), (1920, 1080), (0, 0)])
    st = place_style(r, "Default", False)
    wrap = r.choice([0, 0, 1, 1, 2, 3, 9])
    first = []
    if r.random() < .35:
        first.append(tag("q", [r.choice([0, 1, 1, 2, 2, 3, 4, 9])]))
    if r.random() < .3:
        first.append(tag("an", [r.randint(1, 9)]))
    if r.random() < .12:
        first.append(tag("pos", [r.randint(0, 200), r.randint(0, 100)]))
    if r.random() < .05:
        first.append(tag("move", [1, 2, 30, 40]))
    q = [t["v"][0] for t in first if t["n"] == "q"]
    mode = q[-1] if q and q[-1] < 4 else (0 if wrap == 9 else wrap)
    late = first and r.random() < .15                        # what holds for the event may stand at its end
    blk = lambda *ts: {"p": "tags", "ts": list(ts), "x": []}
    text, lines, word = [], [], [[]]

    def say(x):
        text.append({"p": "text", "ts": [], "x": b(x)})
        for k, part in enumerate(x.split(" ")):
            if k:
                word.append([])
            word[-1].extend(b(part))

    def end():
        lines.append([] if word == [[]] else list(word))
        word[:] = [[]]
    if first and not late:
        text.append(blk(*first))
    n = r.choice([1, 3, 5, 6, 8, 9])
    for k in range(n):
        t = r.choice(WORDS) if r.random() < .93 else "M" * r.randint(20, 60)
        cut = r.randint(1, len(t) - 1) if len(t) > 1 and r.random() < .12 else 0
        if cut:                                               # a tag inside a word, which leaves its widths alone
            say(t[:cut])
            text.append(blk(r.choice([tag("1c", [1, 2, 3]), tag("alpha", [64]), tag("k", [20])])))
            say(t[cut:])
        else:
            say(t)
        if k + 1 == n:
            break
        x = r.random()
        if x < .8:
            say(" ")
        elif x < .9:
            for _ in range(r.choice([1, 1, 1, 2])):
                text.append({"p": "break", "ts": [], "x": []})
                end()
        elif x < .97:
            text.append({"p": "soft", "ts": [], "x": []})
            if mode == 2:
                end()
            else:
                word.append([])
        else:
            text.append({"p": "hard", "ts": [], "x": []})
            word[-1].extend([194, 160])
    end()
    if late:
        text.append(blk(*first))
    out = []                                                  # texts next to each other are one
    for p in text:
        if out and p["p"] == "text" == out[-1]["p"]:
            out[-1] = {"p": "text", "ts": [], "x": out[-1]["x"] + p["x"]}
        else:
            out.append(p)
    return {"op": "wrap", "w": w, "hh": h, "px": px, "py": py, "sbs": "yes", "styles": [st], "st": "Default", "from": 100, "to": 200, "t": 130, "ws": wrap,
            "emg": [r.choice([0, 0, -1, 20, r.randint(1, max(2, (px or w) // 3))]) for _ in range(2)] + [0], "pad": r.choice([1, 4]), "lines": lines, "text": out}


def scenes(r, i, n):
    return [{"op": "reset"}] + [scene(r) for _ in range(n)]


def r14(ctx):
    def mutate(recs):
        for x in recs:
            if x.get("rows"):
                x["rows"][0]["x"] = x["rows"][0]["x"][1:]
    std(ctx, "Wrap", "runs", ("6", "7"), ("5", "6"), (900, 7000), scenes, (500, 6000), (10, 20), mutate,
        ["wrap/" + k for k in ("0/broken", "1/broken", "3/broken", "0/kept", "1/kept", "2/kept", "0/placed/kept", "1/placed/kept")])
    return ("histories = up to 5 (6) words of three widths in rooms of seven widths under every wrap style (a seeded sample) plus seeded ones: texts of up to nine words of any "
            "widths with breaks, tags inside words, spacing, scales, margins, resolutions and alignments; non-trivial = a distinct history")


CHECKS = {"R14": r14}
