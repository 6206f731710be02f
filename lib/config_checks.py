"""Checks of typed configurations (the serialisation headers of the YAML library)."""
import os
import vlib
from yaml_checks import LEGACY, drv

GROUPS = {"load": 1, "strict": 2, "store": 3, "hooks": 4, "disc": 5, "enum": 6}


def config(ctx, group, model, n, deep):
    """Random values and documents of many types through the real code; every event as the specification says."""
    src, inc = LEGACY

    def build():
        return ctx.compile("cfg", [drv("cfg_driver.cpp"), src], inc, ["-DGROUP=%d" % GROUPS[group]], opt="-O0")
    exe, _ = vlib.parallel([build, lambda: ctx.model_check("MCConfig", "MCConfig" + model + ("Deep" if ctx.thorough else ""), workers=6)])
    for i in range(deep if ctx.thorough else 1):
        sd, tr, ty = ctx.path("scratch"), ctx.path("trace%d" % i), ctx.path("types%d" % i)
        os.makedirs(sd, exist_ok=True)
        ctx.run([exe, tr, ty, str(ctx.seed * 1000 + i), str(n), sd, group])
        if i == 0:
            ctx.sample_trace(tr, 2)
        ctx.validate("TraceConfig", tr, chunk=max(500, n // 8), env={"TYPES": ty}, what="typed configuration (%s)" % group)


def p06(ctx):
    config(ctx, "store", "Store", 16000, 12)


def p07(ctx):
    config(ctx, "load", "Load", 16000, 12)


def p08(ctx):
    config(ctx, "strict", "Strict", 16000, 12)


def p09(ctx):
    config(ctx, "hooks", "Hooks", 16000, 12)


def p10(ctx):
    config(ctx, "disc", "Chosen", 16000, 12)


def p11(ctx):
    ctx.model_check("MCDispatch")
    src, inc = LEGACY
    exe = ctx.compile("apply", [drv("apply_driver.cpp"), src], inc, opt="-O0")
    tr = ctx.path("trace")
    ctx.run([exe, tr])
    ctx.sample_trace(tr, 2)
    ctx.validate("TraceDispatch", tr, chunk=1000, what="applying handlers")


def p12(ctx):
    config(ctx, "enum", "Lists", 16000, 12)
