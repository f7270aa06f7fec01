"""C01-C03: reading and writing a script (spec/AssParse*.tla)."""
from vlib import b
import gendoc


def hists(ctx, n, probes=False):
    gen = ctx.generate("AssParse_MC", "AssParse_Gen.cfg", env={"MAXLINES": "3", "PRINTHIST": "yes"})
    r = ctx.rng("docs")
    if not ctx.thorough:
        gen = r.sample(gen, 4000)
    hs = gen + [{"id": f"r{i}", "ops": [{"op": "reset", "t": b(gendoc.document(r))}]} for i in range(n)]
    if probes:
        for h in hs:
            t = h["ops"][0]["t"]
            h["ops"][0]["probe"] = sorted({r.randint(0, len(t) + 1) for _ in range(6)})
    return hs


def common(ctx, n, **kw):
    ctx.model_check("AssParse_MC", "AssParse_MC.cfg", env={"MAXLINES": ctx.pick("2", "4"), "PRINTHIST": "no"})
    hs = hists(ctx, ctx.pick(n, n * 20), **kw)
    ps = ctx.conform("core", "parse", "AssParse_TV", hs)

    def mutate(recs):
        for x in recs:
            if not x["panic"]:
                x["iss"] = x["iss"] + [{"sev": "Error", "line": 7}]
                x["spans"] = x["spans"] + [[]]
                x["same"] = False
    if ps and not ctx.violations:
        ctx.corrupt_probe("AssParse_TV", ps[0], None, mutate)
    return ("documents = every sequence of 3 lines over AssParse_MC's 26-line alphabet (a seeded sample of them in the quick "
            "tier) plus seeded realistic and damaged documents; non-trivial = a distinct document")


def c01(ctx):
    ctx.check_accelerators()
    x = common(ctx, 2000)
    ctx.require_cov("clean", "with issues")
    return x


def c02(ctx):
    x = common(ctx, 2000, probes=True)
    ctx.require_cov("clean", "with issues")
    return x


def c03(ctx):
    x = common(ctx, 2000)
    ctx.require_cov("clean", "with issues", "mixed formats")
    return x


CHECKS = {"C01": c01, "C02": c02, "C03": c03}
