"""Seeded generators of ASS documents: realistic ones, messy ones, and line-level mutations of both."""

STYLE_FIELDS = ["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold",
                "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline",
                "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding"]
EVENT_FIELDS = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"]
TYPES = ["Dialogue", "Dialogue", "Dialogue", "Comment", "Picture", "Sound", "Movie", "Command"]
WORDS = ["Hello", "World", "{\\b1}bold{\\b0}", "a, b", "日本語", "ünïcödé", "{\\pos(10,20)}", "\\N", "😀", "x:y", "", "[not a header]",
         "{\\k50}ka{\\k20}ra", "  spaced", "tab\there", "#hash", ";semi", "{\\t(0,100,\\fs30)}", "é", "1,2,3,4,5,6,7,8,9,10,11,12"]
STYLES = ["Default", "Sign", "Top Left", "Ünï", "Default2", "*Star"]


def case(r, s):
    x = r.random()
    return s if x < 0.85 else s.lower() if x < 0.93 else s.upper()


def sp(r):
    return r.choice(["", "", "", "", " ", "  ", "\t"])


def time(r):
    return "%d:%02d:%02d.%02d" % (r.choice([0, 0, 0, 1]), r.choice([0, 0, 1, 59]), r.randint(0, 59), r.randint(0, 99))


def style_values(r, fields):
    v = {"name": r.choice(STYLES), "fontname": r.choice(["Arial", "Noto Sans CJK", ""]), "fontsize": r.choice(["20", "48.5", ""]),
         "alignment": str(r.randint(1, 9)), "bold": r.choice(["0", "-1", "1"])}
    return [v.get(f.strip().lower(), r.choice(["0", "1", "100", "&H00FFFFFF", "", "&HFF&"])) for f in fields]


def fields(r, base, weird):
    f = list(base)
    x = r.random()
    if x < 0.5:
        pass
    elif x < 0.7:
        f.insert(r.randint(1, len(f) - 1), r.choice(["MarginT", "MarginB", "RelativeTo", "Foo"]))
    elif x < 0.85:
        k = [f[-1]] if base is EVENT_FIELDS else []
        f = r.sample(f[:-1], r.randint(1, 6)) + k
        if r.random() < 0.3 and weird:
            f.append(r.choice(["Text", "Name", "Bar"]))
    elif x < 0.9 and weird:
        r.shuffle(f)
    return [case(r, y) for y in f] if r.random() < 0.3 else f


def uu(r, data):
    out = []
    for i in range(0, len(data), 45):
        c = data[i:i + 45]
        line = chr(32 + len(c))
        for j in range(0, len(c), 3):
            g = (c[j:j + 3] + b"\0\0")[:3]
            q = [g[0] >> 2, (g[0] & 3) << 4 | g[1] >> 4, (g[1] & 15) << 2 | g[2] >> 6, g[2] & 63]
            line += "".join(chr(32 + x) if x or r.random() < 0.5 else "`" for x in q)
        out.append(line)
    return out


def blob(r):
    n = r.choice([1, 2, 3, 27, 27, 44, 45, 46, 60, 72, 90, 91])
    return bytes(r.choice([0, 0, 1, 255, r.randint(0, 255)]) for _ in range(n))


def info_lines(r):
    out = []
    for _ in range(r.randint(0, 5)):
        k = r.choice(["Title", "ScriptType", "PlayResX", "PlayResY", "WrapStyle", "Original Script", "X", "Ключ"])
        v = {"ScriptType": r.choice(["v4.00+", "v4.00", "v4.00++", "v9"]), "PlayResX": "1280"}.get(k, r.choice(WORDS))
        out.append(sp(r) + k + r.choice([":", ": ", " :  "]) + v + sp(r))
    return out


def style_lines(r, weird=True):
    f = fields(r, STYLE_FIELDS, weird)
    out = []
    if r.random() < 0.85:
        out.append("Format:" + r.choice(["", " "]) + r.choice([",", ", "]).join(f))
    else:
        f = STYLE_FIELDS
    for _ in range(r.randint(0, 4)):
        v = style_values(r, f)
        x = r.random()
        if x < 0.08 and len(v) > 1:
            v = v[:-1]
        elif x < 0.14:
            v.append("extra")
        pre = r.choice(["", "", "", "*Default,", "* Sign ,"]) if weird else ""
        out.append("Style:" + r.choice(["", " "]) + pre + r.choice([",", ",", ", "]).join(v))
        if r.random() < 0.06:
            f = fields(r, STYLE_FIELDS, weird)
            out.append("Format: " + ",".join(f))
    return out


def event_lines(r, weird=True, n=None):
    f = fields(r, EVENT_FIELDS, weird)
    out = []
    if r.random() < 0.85:
        out.append("Format:" + r.choice(["", " "]) + r.choice([",", ", "]).join(f))
    else:
        f = EVENT_FIELDS
    for _ in range(r.randint(0, 6) if n is None else n):
        v = []
        for x in f:
            k = x.strip().lower()
            v.append({"start": time(r), "end": time(r), "style": r.choice(STYLES), "layer": str(r.randint(0, 3)), "text":
                      "".join(r.choice(WORDS) for _ in range(r.randint(0, 4)))}.get(k, r.choice(["", "0", "10", "Bob"])))
        if r.random() < 0.08 and len(v) > 1:
            v = v[:r.randint(1, len(v) - 1)]
        out.append(sp(r) + r.choice(TYPES) + ":" + r.choice(["", " "]) + r.choice([",", ",", ", "]).join(v))
    return out


def media_lines(r, key):
    out = []
    for _ in range(r.randint(0, 3)):
        out.append(sp(r) + key + ":" + r.choice(["", " "]) + r.choice(["a.ttf", "b c.otf", "C:\\x.png", "é.ttf", ""]))
        if r.random() < 0.2:
            out.append("begin 644 a.ttf")
        out += uu(r, blob(r)) if r.random() < 0.8 else ["data line", "more"]
        if r.random() < 0.3:
            out += ["`", "end"]
        if r.random() < 0.3:
            out.append(r.choice(["", "# note", "; note", "! note", "#", "junk"]))
    return out


NOISE = ["", "  ", "; comment", "# comment", "!: note", "garbage", "Format: X", "Dialogue: 0,0:00:00.00", "[Broken", "[Unknown]",
         "key only", "a: b", "\u3000", "\u00a0;x: y", "Style: z", "]", "[]", "[ Events ]x", "fontname: z.ttf", "\r"]


def document(r, weird=True):
    secs = []
    kinds = ["info", "styles", "events", "fonts", "graphics"]
    if r.random() < 0.3:
        kinds = [r.choice(kinds) for _ in range(r.randint(0, 6))]
    elif r.random() < 0.5:
        kinds = kinds[:3]
    for k in kinds:
        head, body = {"info": ("[Script Info]", info_lines), "styles": (r.choice(["[V4+ Styles]", "[V4 Styles]", "[V4++ Styles]"]), style_lines),
                      "events": ("[Events]", event_lines), "fonts": ("[Fonts]", lambda q: media_lines(q, "fontname")),
                      "graphics": ("[Graphics]", lambda q: media_lines(q, "filename"))}[k]
        lines = [sp(r) + head] + body(r)
        if r.random() < 0.7:
            lines.append("")
        secs += lines
    if weird:
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            x = r.random()
            i = r.randint(0, len(secs))
            if x < 0.55:
                secs.insert(i, r.choice(NOISE))
            elif secs and x < 0.7:
                del secs[min(i, len(secs) - 1)]
            elif secs:
                j = min(i, len(secs) - 1)
                ln = secs[j]
                if ln:
                    k = r.randint(0, len(ln))
                    secs[j] = ln[:k] + r.choice(["", ",", ":", "]", "[", "*", " ", "é", "\r"]) + ln[k + r.randint(0, 2):]
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    t = eol.join(secs)
    if r.random() < 0.7:
        t += eol
    if r.random() < 0.08:
        t = "\ufeff" + t
    return t
