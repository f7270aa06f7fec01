"""E01-E05, E13: the editable document (spec/EdDoc*.tla)."""
from vlib import b

ATOMS = ["a", "b", " ", "\n", "é", "漢", "😀", "{\\b1}", ",", "Dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,x\n"]
BASE = ["", "Hello World", "line one\nline two\n", "ünï\n漢字😀\nend",
        "[Script Info]\nTitle: T\n\n[V4+ Styles]\nFormat: Name, Fontname\nStyle: Default,Arial\n\n[Events]\n"
        "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n"
        "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,one é\n"
        "Dialogue: 0,0:00:03.00,0:00:04.00,Default,,0,0,0,,two\n"]
BIG = ["x" * 101, "[Fonts]\n", "l1\nl2\nl3", "[Graphics]\nfilename: a.png\n", "é" * 60,
       "[Events]\nFormat: Start, End, Text\nDialogue: 0:00:00.00,0:00:01.00,new\n"]


def rtext(r, big=False):
    if big and r.random() < 0.6:
        return r.choice(BIG)
    return "".join(r.choice(ATOMS) for _ in range(r.choice([0, 1, 1, 1, 2, 3])))


def boundaries(bs):
    return [i for i in range(len(bs) + 1) if i == len(bs) or not (128 <= bs[i] < 192)]


def pos(r, t):
    """A position: usually a character boundary, sometimes inside a character or out of bounds."""
    x = r.random()
    if x < 0.05:
        return len(t) + r.choice([1, 2, 7])
    if x < 0.09:
        return r.randint(0, len(t))
    return r.choice(boundaries(t))


def splice(t, s, e, n):
    s, e = min(s, e), max(s, e)
    B = boundaries(t)
    if e > len(t) or s not in B or e not in B:
        return None
    return t[:s] + n + t[e:]


class Sim:
    """Tracks the text only to aim positions; judging is the specification's job."""
    def __init__(self, t):
        self.t, self.u, self.r = t, [], []

    def push(self, n):
        if n is not None:
            self.u.append(self.t); self.r = []; self.t = n

    def undo(self):
        if self.u:
            self.r.append(self.t); self.t = self.u.pop()

    def redo(self):
        if self.r:
            self.u.append(self.t); self.t = self.r.pop()


def one_edit(r, sim, names, big):
    op = r.choice(names)
    t = sim.t
    s, e = pos(r, t), pos(r, t)
    if r.random() < 0.3 and len(t) > 60:
        pass
    elif r.random() < 0.7 and s <= len(t):
        c = [x for x in boundaries(t) if abs(x - s) <= 6]
        if c:
            e = r.choice(c)
    n = b(rtext(r, big))
    if op in ("ins", "iins", "fins", "qins"):
        sim.push(splice(t, s, s, n))
        return {"op": op, "s": s, "t": n}
    if op in ("del", "idel", "fdel", "qdel"):
        sim.push(splice(t, s, e, []))
        return {"op": op, "s": s, "e": e}
    sim.push(splice(t, s, e, n))
    return {"op": op, "s": s, "e": e, "t": n}


def one_cmd(r, sim, depth=0):
    """A command for execute_command: single or (nested) batch."""
    if depth < 2 and r.random() < 0.6:
        start = sim.t
        cmds = []
        ok = True
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            sub = Sim(sim.t)
            c = one_cmd(r, sub, depth + 1)
            if sub.t != sim.t:
                sim.t = sub.t
            cmds.append(c)
        return {"k": "batch", "cmds": cmds, "s": 0, "e": 0, "t": []}
    k = r.choice(["ins", "del", "rep"])
    t = sim.t
    p = lambda: r.choice(boundaries(t)) if r.random() < 0.93 else pos(r, t)
    s, e = p(), p()
    n = b(rtext(r))
    if k == "ins":
        e = s
    if k == "del":
        n = []
    x = splice(t, s, e, n)
    if x is not None:
        sim.t = x
    return {"k": k, "s": s, "e": e, "t": n}


def history(r, i, names, steps, cfg=False, big=False, undo_p=0.4, cmd_p=0.0, extra=False):
    t = b(r.choice(BASE))
    sim = Sim(t)
    reset = {"op": "reset", "t": t, "cfg": cfg}
    if cfg:
        reset.update(maxe=r.choice([0, 1, 2, 3, 5, 8]), maxm=r.choice([0, 0, 60, 150, 200, 400, 1000]), arena=r.choice([0, 1, 3]))
    ops = [reset]
    for _ in range(steps):
        x = r.random()
        if x < undo_p:
            # runs of undo and redo reach deep stack positions
            op = r.choice(["undo", "undo", "redo"])
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                ops.append({"op": op})
                getattr(sim, op)()
        elif x < undo_p + cmd_p:
            before = sim.t
            sub = Sim(before)
            c = one_cmd(r, sub)
            c["op"] = r.choice(["cmd", "cmd", "xbatch"]) if c["k"] == "batch" else "cmd"
            ops.append(c)
            sim.push(sub.t)
        elif extra and x > 0.97:
            o = r.choice(["clearhist", "cursor", "setcfg"])
            if o == "setcfg" and not cfg:
                o = "clearhist"
            d = {"op": o}
            if o == "cursor":
                d["s"] = r.choice(boundaries(sim.t))
            else:
                sim.u, sim.r = [], []
            if o == "setcfg":
                d.update(maxe=r.choice([0, 1, 2, 5]), maxm=r.choice([0, 100, 300]), arena=0)
            ops.append(d)
        else:
            ops.append(one_edit(r, sim, names, big))
    return {"id": f"r{i}", "ops": ops}


PLAIN = ["ins", "del", "rep"]
FLUENT = ["fins", "frep", "fdel", "qins", "qdel", "qrep"]
INC = ["inc", "inc", "iins", "idel", "safe"]


def doc_check(ctx, names, n, steps, **kw):
    ctx.model_check("EdDoc_MC", "EdDoc_MCq.cfg" if not ctx.thorough else "EdDoc_MC.cfg")
    gen = ctx.generate("EdDoc_Gen", env={"GENMODE": kw.pop("genmode", "plain"), "GENDEPTH": str(ctx.pick(4, 5))})
    r = ctx.rng("doc")
    hists = gen + [history(r, i, names, steps, **kw) for i in range(n)]
    ps = ctx.conform("editor", "doc", "EdDoc_TV", hists)

    def mutate(recs):
        for x in recs:
            if x["op"] == "undo" and x.get("res") == "ok":
                x["text"] = x["text"] + [33]; x["uc"] += 1
            if x.get("ev"):
                x["ev"] = []
            if x["op"] in ("ins", "rep", "inc"):
                x["text"] = x["text"] + [33]
    if ps and not ctx.violations:
        ctx.corrupt_probe("EdDoc_TV", ps[0], None, mutate)
    return ("behaviours = all operation sequences of EdDoc_Gen to the stated depth plus seeded random histories of the "
            "listed entry points; non-trivial = a distinct operation sequence")


def e01(ctx):
    x = doc_check(ctx, PLAIN + FLUENT + INC, ctx.pick(400, 6000), 30, big=True, cmd_p=0.05, extra=True)
    ctx.require_cov("undo/ok", "redo/ok", "undo/empty", "redo/empty", "inc/ok", "rep/ok", "qrep/ok")
    return x


def e02(ctx):
    x = doc_check(ctx, PLAIN + FLUENT, ctx.pick(500, 6000), 30, cfg=True, extra=True, genmode="limits")
    ctx.require_cov("undo/ok", "redo/ok", "setcfg", "rep/ok")
    return x


def e03(ctx):
    x = doc_check(ctx, PLAIN + FLUENT, ctx.pick(500, 6000), 30, undo_p=0.1)
    ctx.require_cov("ins/ok", "del/ok", "rep/ok", "ins/rejected", "del/rejected", "rep/rejected")
    return x


def e04(ctx):
    x = doc_check(ctx, PLAIN + ["fins", "frep", "fdel"] + INC, ctx.pick(400, 6000), 30, big=True, undo_p=0.1)
    ctx.require_cov("ins/ok", "del/ok", "rep/ok", "inc/ok", "ins/rejected")
    return x


def e05(ctx):
    x = doc_check(ctx, INC, ctx.pick(400, 6000), 30, big=True, undo_p=0.3, genmode="inc")
    ctx.require_cov("inc/ok", "iins/ok", "idel/ok", "safe/ok", "undo/ok", "inc/rejected")
    return x


def e13(ctx):
    x = doc_check(ctx, PLAIN, ctx.pick(500, 6000), 20, undo_p=0.35, cmd_p=0.45, genmode="batch")
    ctx.require_cov("cmd/ok", "cmd/rejected", "xbatch/ok", "xbatch/rejected", "undo/ok", "redo/ok")
    return x


CHECKS = {"E01": e01, "E02": e02, "E03": e03, "E04": e04, "E05": e05, "E13": e13}
