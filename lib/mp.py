"""Builds the multiphysics code (apps/multiphysics) of /repo against the serial
stand-ins of its array and mesh libraries in /verif/shim."""
import concurrent.futures as cf, glob, os, subprocess
import vlib

SRC = os.path.join(vlib.REPO, "apps/multiphysics/src")
SHIM = os.path.join(vlib.VERIF, "shim")


def includes():
    dirs = [SHIM, SRC]
    for d, _, files in os.walk(SRC):
        if any(f.endswith((".hpp", ".h")) for f in files):
            dirs.append(d)
    return sorted(set(dirs), key=lambda d: (d != SHIM, d != SRC, d))


def sources(*parts, skip=()):
    out = []
    for p in parts:
        q = os.path.join(SRC, p)
        out += [q] if q.endswith(".cpp") else glob.glob(os.path.join(q, "**", "*.cpp"), recursive=True)
    return sorted(f for f in out if os.path.basename(f) not in skip)


SKIP = ("main.cpp", "energy_sgtm.cpp", "tabular_material_model.cpp")


def groups(srcs, limit=60000):
    """Sources of one part of the code are compiled together (the headers cost more than they do)."""
    parts = {}
    for f in srcs:
        rel = os.path.relpath(f, SRC).split(os.sep)
        parts.setdefault(os.path.join(*rel[:2]) if rel[0] == "Solvers" else rel[0], []).append(f)
    out = []
    for fs in parts.values():
        bins = [[] for _ in range(max(1, round(sum(map(os.path.getsize, fs)) / limit)))]
        for f in sorted(fs, key=lambda f: (-os.path.getsize(f), f)):
            min(bins, key=lambda b: sum(map(os.path.getsize, b))).append(f)
        out += [b for b in bins if b]
    return out


def build(ctx, name, driver, srcs, flags=(), opt="-O1"):
    """Compiles the sources in groups, in parallel (a group that does not compile
    together is compiled one by one), and links them."""
    odir = ctx.path(name + ".o")
    os.makedirs(odir, exist_ok=True)
    inc = ["-I" + vlib.DRIVERS] + ["-I" + d for d in includes()]
    base = ["g++", "-std=c++17", opt, "-g1", "-w", "-DHAVE_KOKKOS=1", "-D_GLIBCXX_ASSERTIONS"] + list(flags)
    units = sorted([[driver]] + groups(srcs), key=lambda u: -sum(map(os.path.getsize, u)))

    def compile_one(src, obj):
        return subprocess.run(base + inc + ["-c", src, "-o", obj], capture_output=True, text=True)

    def one(i):
        u = units[i]
        o = os.path.join(odir, "u%d.o" % i)
        if len(u) > 1:
            c = o[:-2] + ".cpp"
            with open(c, "w") as f:
                f.writelines('#include "%s"\n' % x for x in u)
            if compile_one(c, o).returncode == 0:
                return [o]
        objs = []
        for k, f in enumerate(u):
            o = os.path.join(odir, "u%d_%d.o" % (i, k))
            r = compile_one(f, o)
            if r.returncode:
                raise vlib.CheckError("cannot build %s:\n%s" % (f, r.stderr[-4000:]))
            objs.append(o)
        return objs
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        objs = [o for os_ in ex.map(one, range(len(units))) for o in os_]
    exe = ctx.path(name)
    r = subprocess.run(base + ["-o", exe] + objs, capture_output=True, text=True)
    if r.returncode:
        raise vlib.CheckError("cannot link %s:\n%s" % (name, r.stderr[-4000:]))
    return exe
