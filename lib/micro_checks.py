"""Checks of the stand-alone parts of the micromechanics solvers (all four variants)."""
import os
import vlib
from yaml_checks import drv

VARIANTS = ["EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT"]


def src(v, *names):
    d = os.path.join(vlib.REPO, "apps/micromechanics", v, "src")
    return [os.path.join(d, n) for n in names]


def variants(ctx, driver, source, model, trace, n, chunk, scratch=False, what=""):
    jobs = [lambda v=v: ctx.compile(driver + v, [drv(driver + ".cpp")] + src(v, source), src(v, "")) for v in VARIANTS]
    exes = vlib.parallel(jobs + [lambda: ctx.model_check(model, model + ("Deep" if ctx.thorough and model == "MCCommandLine" else ""), workers=4)])[:4]

    def one(i):
        tr, sd = ctx.path("trace%d" % i), ctx.path("scratch%d" % i)
        os.makedirs(sd, exist_ok=True)
        ctx.run([exes[i], tr, str(ctx.seed * 1000 + i), str(n)] + ([sd] if scratch else []))
        return tr
    for i, tr in enumerate(vlib.parallel([lambda i=i: one(i) for i in range(4)])):
        if i == 0:
            ctx.sample_trace(tr, 3)
        ctx.validate(trace, tr, chunk=chunk, what="%s of %s" % (what, VARIANTS[i]))


def p13(ctx):
    variants(ctx, "cmdline_driver", "command_line_args.cpp", "MCCommandLine", "TraceCommandLine", 40000 if ctx.thorough else 4000, 2000, what="command line")


def p14(ctx):
    variants(ctx, "grid_driver", "XdmfUniformGridWriter.cpp", "MCGridFile", "TraceGridFile", 20000 if ctx.thorough else 2000, 500, scratch=True, what="grid files")
