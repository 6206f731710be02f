"""Checks of the YAML library (both copies of the parser)."""
import json, os
from vlib import REPO, DRIVERS, CheckError, Violation

YS = os.path.join(REPO, "legacy/Fierro_V0/src/Yaml-Serializable")
MP = os.path.join(REPO, "apps/multiphysics/src/input")
LEGACY = (YS + "/src/Yaml.cpp", [YS + "/include"])
MULTI = (MP + "/Yaml.cpp", [MP])
COPIES = {"library": LEGACY, "multiphysics": MULTI}


def drv(name):
    return os.path.join(DRIVERS, name)


def is_reset(line):
    return '"op":"reset"' in line


def node_check(ctx, mode, alpha_depth, nrandom):
    ctx.model_check("MCNodeTree")
    exes = ctx.compile_all([dict(name="nd-" + k, sources=[drv("node_driver.cpp"), src], includes=inc) for k, (src, inc) in COPIES.items()])
    for k, exe in zip(COPIES, exes):
        tr = ctx.path("trace-" + k)
        ctx.run([exe, tr, str(ctx.seed), str(nrandom), str(alpha_depth), mode])
        ctx.sample_trace(tr, 1)
        ctx.validate("TraceNodeTree", tr, is_reset, chunk=6000, what="node calls (%s copy)" % k)


def p01(ctx):
    node_check(ctx, "list", 4 if ctx.thorough else 3, 60000 if ctx.thorough else 6000)


def p02(ctx):
    node_check(ctx, "copy", 4 if ctx.thorough else 3, 60000 if ctx.thorough else 6000)


# ------------------------------------------------------------------ documents
import itertools, random
import vlib


def write_texts(path, texts):
    with open(path, "wb") as f:
        for t in texts:
            b = t.encode("latin1")
            f.write(b"%d\n" % len(b) + b)


def simulate(ctx, cfg, module, num, depth=30, procs=None, env=None):
    """Random behaviours of a specification, printed as cases."""
    procs = procs or vlib.NCPU
    fns = [lambda s=s: ctx.generate(module, cfg, env=env, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 1000 + s)])
           for s in range(procs)]
    out, seen = [], set()
    for cases in vlib.parallel(fns):
        for c in cases:
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(c)
    return out


SOUP = ["a", "b", ": ", ":", "- ", "-", " ", "  ", "\n", "\n", "\n  ", "\n    ", '"', "'", "#", "|", "|-", ">", ">-", "\t", "---\n", "...\n", "\\",
        "x y", "\r\n", "\x01", "\xe9", "\x7f", "\x00", "k: v", "- z", "\n- ", "\na: ", "\n  b: ", "''", '"q"', '"a": ', "\n\n", " # c", "\n---\n", "\n...\n", "~", "\r"]


def soup(rng, n):
    for _ in range(n):
        yield "".join(rng.choice(SOUP) for _ in range(rng.randint(3, 14)))


def short_texts(depth):
    toks = ["a", ":", "- ", " ", "\n", '"', "#", "|", ">", "\t", "---\n", "\n  ", "'", "\\", "-", ": "]
    for n in range(depth + 1):
        for c in itertools.product(toks, repeat=n):
            yield "".join(c)


def mutated(rng, docs, n):
    for _ in range(n):
        t = rng.choice(docs)
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(t))
            k = rng.randint(0, 4)
            if k == 0:
                t = t[:i] + t[i + rng.randint(1, 3):]
            elif k == 1:
                t = t[:i] + rng.choice(SOUP) + t[i:]
            elif k == 2:
                t = t[:i] + rng.choice(SOUP) + t[i + 1:]
            elif k == 3:
                ls = t.split("\n")
                j = rng.randrange(len(ls))
                ls.insert(j, rng.choice([" ", "  ", "   "]) + ls.pop(j))
                t = "\n".join(ls)
            else:
                ls = t.split("\n")
                rng.shuffle(ls) if rng.randint(0, 4) == 0 else ls.pop(rng.randrange(len(ls)))
                t = "\n".join(ls)
        yield t


def read_texts(ctx, texts, tag):
    """Both copies read the texts; returns {copy: trace file}."""
    exes = ctx.compile_all([dict(name="td-%s-%s" % (tag, k), sources=[drv("text_driver.cpp"), src], includes=inc) for k, (src, inc) in COPIES.items()])
    tf = ctx.path("texts-" + tag)
    write_texts(tf, texts)
    out = {}
    for k, exe in zip(COPIES, exes):
        sd = ctx.path("scratch-" + k)
        os.makedirs(sd, exist_ok=True)
        out[k] = ctx.path("trace-%s-%s" % (tag, k))
        ctx.run([exe, out[k], tf, sd])
    return out


def events(path):
    with open(path) as f:
        for line in f:
            yield json.loads(line)


def p03(ctx):
    t = ctx.thorough
    docs = ctx.generate("MCYamlGen", "MCYamlGenDeep" if False else "MCYamlGen", env={"PRINT": "1"}, workers=vlib.NCPU, heap="8g")
    docs += simulate(ctx, "SimYamlGen", "MCYamlGen", 1500 if t else 120)
    texts = [d["text"] for d in docs]
    for k, tr in read_texts(ctx, texts, "doc").items():
        for d, e in zip(docs, events(tr)):
            ctx.validated += 1
            if not e["first"]["ok"] or e["first"]["tree"] != d["tree"] or e["same"] != "ok":
                raise Violation("a document is not read as the tree it denotes (%s copy)" % k,
                                "document:\n%s\nexpected %s\nobserved %s" % (d["text"], json.dumps(d["tree"]), json.dumps(e)))
    ctx.sample(docs[-1])
    rng = random.Random(ctx.seed)
    other = list(mutated(rng, texts[-2000:], 80000 if t else 5000)) + list(soup(rng, 80000 if t else 5000))
    for k, tr in read_texts(ctx, other, "rnd").items():
        ctx.validate("TraceYamlRead", tr, chunk=1500, env={"SIDE": "good"}, what="reading a document (%s copy)" % k)


def p04(ctx):
    t = ctx.thorough
    ctx.model_check("MCYamlGen", "MCYamlBadDeep" if t else "MCYamlBad", env={"PRINT": "0"})
    bad = simulate(ctx, "SimYamlBad", "MCYamlGen", 600 if t else 60)
    for k, tr in read_texts(ctx, [d["text"] for d in bad], "bad").items():
        for d, e in zip(bad, events(tr)):
            ctx.validated += 1
            f = e["first"]
            if f["ok"] or f["kind"] not in ("parsing", "internal") or f["line"] != d["line"] or f["tree"]["t"] != "n" or e["same"] != "ok":
                raise Violation("a malformed document is not rejected as it should (%s copy)" % k,
                                "document:\n%s\nerror expected at line %d\nobserved %s" % (d["text"], d["line"], json.dumps(e)))
    ctx.sample(bad[-1])
    rng = random.Random(ctx.seed + 17)
    texts = list(short_texts(4 if t else 3)) + list(mutated(rng, [d["text"] for d in bad], 80000 if t else 3000)) + list(soup(rng, 80000 if t else 4000))
    for k, tr in read_texts(ctx, texts, "rnd").items():
        ctx.validate("TraceYamlRead", tr, chunk=1500, env={"SIDE": "bad"}, what="rejecting a text (%s copy)" % k)


def p05(ctx):
    t = ctx.thorough
    ctx.model_check("MCYamlText", "MCYamlTextDeep" if t else "MCYamlText")
    ctx.model_check("MCYamlWrite", "MCYamlWriteDeep" if t else "MCYamlWrite")
    exes = ctx.compile_all([dict(name="wd-" + k, sources=[drv("write_driver.cpp"), src], includes=inc) for k, (src, inc) in COPIES.items()])
    for text in ctx.known_findings():
        d = json.JSONDecoder().raw_decode(text[len("input="):])[0]
        if any(ctx.run([exe, "--one", d["key"], d["text"]]).text.strip() == "lost" for exe in exes):
            ctx.report_known(text)
    for k, exe in zip(COPIES, exes):
        sd = ctx.path("scratch-" + k)
        os.makedirs(sd, exist_ok=True)
        tr = ctx.path("trace-" + k)
        ctx.run([exe, tr, str(ctx.seed), str(60000 if t else 6000), sd])
        ctx.sample_trace(tr, 1)
        ctx.validate("TraceYamlWrite", tr, chunk=800, what="writing a tree and reading it back (%s copy)" % k)
