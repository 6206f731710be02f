"""Whole runs: decks generated by the specification, run by the real code, checked step by step."""
import json, os, random
import mp, vlib
from yaml_checks import drv
from setup_checks import num, vec, region, tree, mesh_options, BAD

T, V = 1e9, 64.0
FLAGS = ["-DFIERRO_VERIF_TRACE"]


def t(rng, v):
    return num(rng, v / T)


def boundary(rng, b, method):
    out = {"solver_id": str(b["solver"]), "surface": {"type": b["type"], "plane_position": num(rng, b["at"] / 1024.0), "tolerance": num(rng, b["tol"] / 1024.0)}}
    k, m = b["kind"], b["model"]
    v = [num(rng, x / V) for x in b["v"]]
    if k == "velocity":
        d = [str(float(x)) for x in b["dir"]]
        var = {"fixed": None, "reflected": d, "constant": v, "piston": d + v + [t(rng, b["from"]), t(rng, b["to"])],
               "time_varying": d + v[:2] + [t(rng, b["from"]), t(rng, b["to"])]}[m]
    elif k == "stress":
        var = [num(rng, x / V) for x in b["sig"]]
        if m == "time_varying":
            var += [v[0], t(rng, b["from"]), t(rng, b["to"])]
    else:
        var = [num(rng, b["temp"] / 4.0)] if m == "constant" else None
    out[k + "_model"] = m
    if var:
        out[k + "_bc_global_vars"] = var
    return out


def material(rng, m, k, methods):
    mat = {"id": str(k)}
    if "level_set" in methods:
        if m["front"]:
            mat.update({"level_set_type": "evolve_front", "normal_velocity": num(rng, m["speed"] / 8.0)})
        elif rng.random() < 0.5:
            mat["level_set_type"] = "no_level_set"
        return mat
    rz = "_rz" if "dynx_FE_rz" in methods else ""
    mat["eos_model_type"] = "decoupled"
    if m["eos"] == "gamma":
        mat.update({"eos_model": "gamma_law_gas", "eos_global_vars": [num(rng, m["gam"] / 4.0), "1.0E-14", "1.0"]})
    elif m["eos"] == "elastic":
        mat.update({"eos_model": "linear_elastic_eos", "eos_global_vars": [num(rng, m[k] / 4.0) for k in ("bulk", "modulus", "den0", "least")]})
    else:
        mat.update({"eos_model": "void", "eos_global_vars": ["0.0"]})
    if m["str"] == "plastic":
        mat.update({"strength_model_type": "increment_based", "strength_model": "hypo_plasticity_strength" + rz, "strength_global_vars": [num(rng, m["shear"] / 4.0), num(rng, m["yield"] / 16.0)]})
    elif rng.random() < 0.3:
        mat.update({"strength_model_type": "no_strength"} if rng.random() < 0.5 else {"strength_model": "no_strength"})
    if m["ero"] == "basic":
        mat.update({"erosion_model": "basic", "erode_tension_val": num(rng, m["tension"] / 16.0), "erode_density_val": num(rng, m["thin"] / 16.0)})
    elif rng.random() < 0.2:
        mat["erosion_model"] = "no_erosion"
    if m["q"]:
        mat.update({"dissipation_model": "MARS" + rz, "dissipation_global_vars": ["1.0", "1.0", "1.333", "1.333", "0.0", "1.0"]})
    elif rng.random() < 0.5:
        mat["dissipation_model"] = "no_dissipation"
    return mat


def run_yaml(rng, d, mesh, fmt="viz"):
    methods = [s["method"] for s in d["solvers"]]
    dyn = {"time_final": t(rng, d["tf"]), "dt_min": t(rng, d["dtmin"]), "dt_max": t(rng, d["dtmax"]), "dt_start": t(rng, d["dtstart"]), "dt_cfl": num(rng, d["cfl"] / 100.0),
           "cycle_stop": str(d["stop"]), "rk_num_stages": str(d["rk"])}
    if d["t0"] or rng.random() < 0.3:
        dyn["time_initial"] = t(rng, d["t0"])
    out = ["dynamic_options:"]
    tree(rng, dyn, "    ", out)
    out.append("mesh_options:")
    tree(rng, mesh, "    ", out)
    out += ["output_options:"]
    o = d.get("outs") or {}
    asked = {w: o[k] for k, w in (("elem", "elem_field_outputs"), ("node", "node_field_outputs"), ("mat", "mat_pt_field_outputs"), ("gauss", "gauss_pt_field_outputs")) if o.get(k)}
    tree(rng, asked | {"output_file_format": o.get("format", fmt), "graphics_time_step": t(rng, d["ival"]), "graphics_iteration_step": str(d["iter"])}, "    ", out)
    out += ["multimaterial_options:", "    max_num_mats_per_element: %d" % d["max"]]
    out.append("solver_options:")
    for i, s in enumerate(d["solvers"]):
        out.append("  - solver:")
        o = {"method": s["method"], "id": str(i)}
        if s["tend"]:
            o["time_end"] = t(rng, s["tend"])
        tree(rng, o, "        ", out)
    if d["bcs"] or d.get("contact") or d.get("bond"):
        out.append("boundary_conditions:")
        for b in d["bcs"]:
            out.append("  - boundary_condition:")
            tree(rng, boundary(rng, b, methods[b["solver"]]), "        ", out)
    if d.get("contact"):
        out.append("  - boundary_condition:")
        c = {"solver_id": "0", "surface": {"type": "global"}, "stress_model": "global_contact"}
        if d["contact"]["local"]:
            c["contact_bc_vars"] = [str(d["contact"]["local"]), str(d["contact"]["global"])]
        tree(rng, c, "        ", out)
    if d.get("bond"):
        out.append("  - boundary_condition:")
        q = d["bond"]
        tree(rng, {"solver_id": "0", "surface": {"type": "global"}, "stress_model": "fracture",
                   "stress_bc_global_vars": [str(x) for x in [q["E"] / 4, q["a1"] / 4, q["n"] / 4, q["un"] / 64, q["ut"] / 64, len(q["parts"])] + [x for p in q["parts"] for x in (p["E"] / 4, p["tau"] / 64)]]}, "        ", out)
    out.append("materials:")
    for k, m in enumerate(d["mats"]):
        out.append("  - material:")
        tree(rng, material(rng, m, k, methods), "        ", out)
    out.append("regions:")
    for r in d["regions"]:
        out.append("  - region:")
        g = region(rng, {"solver": methods[r["solver"]]}, r)
        g["solver_id"] = str(r["solver"])
        tree(rng, g, "        ", out)
    return "\n".join(out) + "\n"


def build(ctx):
    return mp.build(ctx, "run", drv("run_driver.cpp"), mp.sources(".", skip=mp.SKIP), flags=FLAGS, opt="-O1")


def run_decks(ctx, exe, decks, mode, convert):
    """Each deck run by the real code in a directory of its own; the trace of what it did."""
    def one(i):
        rng = random.Random(ctx.seed * 89 + i)
        wd = ctx.path("w%d" % i)
        mine = decks[i::vlib.NCPU]
        os.makedirs(wd)
        with open(os.path.join(wd, "list"), "w") as f:
            for k, d in enumerate(mine):
                base = os.path.join(wd, "d%d" % k, "deck")
                os.makedirs(os.path.dirname(base))
                y = run_yaml(rng, d, mesh_options(rng, d, base))
                open(base + ".yaml", "w").write(y)
                f.write(base + ".yaml\n")
                d["dir"] = os.path.dirname(base)
        ctx.run([exe, "list", os.path.join(wd, "out"), mode], cwd=wd, timeout=3000)
        got = open(os.path.join(wd, "out")).read().splitlines()
        if len(got) != len(mine):
            raise vlib.CheckError("the run driver answered %d of %d decks" % (len(got), len(mine)))
        tr = os.path.join(wd, "trace")
        with open(tr, "w") as f:
            for d, g in zip(mine, got):
                for e in convert(d, json.loads(g)):
                    f.write(json.dumps(e) + "\n")
        return tr
    trs = vlib.parallel([lambda i=i: one(i) for i in range(vlib.NCPU)])
    whole = ctx.path("trace")
    with open(whole, "w") as f:
        for tr in trs:
            f.write(open(tr).read())
    return whole


def whole(x, scale, most=2000000000):
    v = x * scale
    return round(v) if abs(v) < most else most if v > 0 else -most


def loop_seen(d, g):
    """One line per deck: what every solver did."""
    small = {k: d[k] for k in ("t0", "tf", "dtmin", "dtmax", "dtstart", "stop", "ival", "iter", "solvers")}
    if g["how"] != "ok":
        return [{"deck": small, "how": g["how"], "err": g.get("err", "")[-300:]}]
    runs = []
    for i in range(len(d["solvers"])):
        ev = [e for e in g["got"]["events"] if e["solver"] == i]
        out = [{"t": whole(e["t"], T), "dt": whole(e["dt"], T), "cycle": e["cycle"], "stable": -1 if not 0 <= e["stable"] < 1e300 else whole(e["stable"], T)} for e in ev if e["at"] != "end"]
        for k in range(len(out)):
            out[k]["wrote"] = k > 0 and ev[k + 1]["outs"] > ev[k]["outs"] if k + 1 < len(ev) else False
        runs.append({"events": out, "listed": [[whole(a, T), b] for a, b in g["got"]["listed"][i]]})
    return [{"deck": small, "how": "ok", "runs": runs}]


def decks_of(ctx, short, num, jobs=4, extra=()):
    env = {k: "1" for k in extra} | ({"SHORT": "1"} if short else {})
    return [lambda i=i: ctx.generate("GenRun", args=["-simulate", "num=%d" % num, "-depth", "40", "-seed", str(ctx.seed * 100 + i)], env=env) for i in range(jobs)]


def p20(ctx):
    """Steps, ends and outputs."""
    jobs = [lambda: build(ctx), lambda: ctx.model_check("MCRunLoop", "MCRunLoopDeep" if ctx.thorough else "MCRunLoop", workers=4, timeout=3000)]
    exe, _, *cases = vlib.parallel(jobs + decks_of(ctx, False, 60 if ctx.thorough else 4))
    decks = [d for c in cases for d in c]
    whole_ = run_decks(ctx, exe, decks, "time", loop_seen)
    ctx.notes["steps"] = sum(len(r["events"]) - 1 for l in open(whole_) for r in json.loads(l).get("runs", []) if r["events"])
    ctx.sample_trace(whole_, 2)
    ctx.validate("TraceRunLoop", whole_, chunk=max(20, len(decks) // vlib.NCPU + 1), what="how a run goes through time", timeout=3000)


# ------------------------------------------------------------------- single steps
ONE, LIMIT = 1048576.0, 1900 * 1048576


def shown(x):
    """A number of an output file; nonsense becomes large but can be compared."""
    return max(-900 * ONE, min(900 * ONE, fx(x)))


def fx(x, scale=1.0):
    return whole(x * scale, ONE, LIMIT)


def deep(x, f):
    return [deep(y, f) for y in x] if isinstance(x, list) else f(x)


def conditions(d, g, solver):
    out = []
    for b, s in zip(d["bcs"], g["sets"]):
        if b["solver"] != solver:
            continue
        k = round(sum(x * x for x in b["dir"]) ** 0.5)
        out.append({"kind": b["kind"], "model": b["model"], "dir": b["dir"][:d["mesh"]["dims"]], "k": k, "v": [x * 16384 for x in b["v"]], "sig": [x * 16384 for x in b["sig"]], "from": b["from"], "to": b["to"],
                    "temp": fx(b["temp"] / 4.0 - 300), "nodes": [n + 1 for n in s["nodes"]], "faces": [[n + 1 for n in f] for f in s["faces"]]})
    return out


def steps_seen(d, g, left):
    """One line per step: the state before and after."""
    if g["how"] != "ok":
        return [{"how": g["how"], "err": g.get("err", "")[-300:], "solvers": d["solvers"]}]
    g, out = g["got"], []
    ev = [e for e in g["events"] if e["at"] != "end"]
    for a, b in zip(ev, ev[1:]):
        if b["at"] == "start":
            continue
        method = d["solvers"][b["solver"]]["method"]
        heat = method == "thrmex_FE"
        e = {"how": "ok", "d": d["mesh"]["dims"], "method": method, "rk": d["rk"], "cycle": b["cycle"], "t": whole(a["t"], T), "dt": fx(b["dt"]), "dt10": fx(b["dt"], 1024.0),
             "elems": [[n + 1 for n in el] for el in g["elems"]], "mats": d["mats"], "bcs": conditions(d, g, b["solver"]),
             "vol0": deep(a["vol"], fx), "vol": deep(b["vol"], fx), "mass0": deep(a["m"], fx), "mass": deep(b["m"], fx),
             "pre": {"x": deep(a["x"], fx)}, "post": {"x": deep(b["x"], fx)}}
        if "contact" in d:
            e["contact"], e["axis"] = d["contact"], d["axis"]
        if "bond" in d:
            q = d["bond"]
            e["bond"] = {"E": fx(q["E"] / 4), "a1": fx(q["a1"] / 4), "n": q["n"], "un": fx(q["un"] / 64), "ut": fx(q["ut"] / 64), "parts": [{"E": fx(p["E"] / 4), "tau": fx(p["tau"] / 64)} for p in q["parts"]]}
            e["past"] = [{"x": f["pre"]["x"], "v": f["pre"]["v"], "dt": f["dt"]} for f in out]      # the run up to here
        if heat:
            e["pre"]["T"], e["post"]["T"] = ([fx(x - 300) for x in s["T"]] for s in (a, b))
            e["nq"], e["cq"] = deep(b["nq"], lambda x: fx(x, 1 / 1024.0)), deep(b["cq"], fx)
        else:
            e["pre"]["v"], e["post"]["v"] = deep(a["v"], fx), deep(b["v"], fx)
            e["F"], e["vg"] = deep(b["F"], fx), deep(b["vg"], fx)
            if method == "dynx_FE":
                e["nf"] = deep(b["nf"], fx)
        e["pts"] = []
        for p, q in zip(a["pts"], b["pts"]):
            r = {"e": q["e"], "mat": q["mat"], "vf0": fx(p["vf"]), "mass0": fx(p["mass"])}
            r.update({k: fx(q[k]) for k in ("vf", "gvf", "den", "mass", "cond", "heat", "sie", "pres", "sspd") if k in q})
            r.update({k + "0": fx(p[k]) for k in ("sie", "pres") if k in p})
            r.setdefault("gvf", int(ONE))
            for k, w in (("", q), ("0", p)):
                r["gone" + k] = w.get("gone", False)
                if "st" in w:
                    r["st" + k] = deep(w["st"], fx)
            if "F" in q:
                r["F"] = deep(q["F"], fx)
            e["pts"].append(r)
        def sound(most, *xs):
            return all(abs(x) < most * ONE if not isinstance(x, list) else sound(most, *x) for x in xs)
        before = (e["pre"]["x"], e["pre"].get("v", []), e["pre"].get("T", []), [[p.get(k, 0) for k in ("sie0", "pres0")] for p in e["pts"]])
        after = (e["post"]["x"], e["post"].get("v", []), e["post"].get("T", []), e.get("F", []), e["vol"], [[p.get(k, 0) for k in ("sie", "pres", "den", "sspd")] for p in e["pts"]])
        push = e.get("nf", [])
        e["sound"] = sound(40, *after) and (sound(100, push) and sum(max(map(abs, f)) for f in push) < 1500 * ONE if "contact" in d else sound(40, push))
        if not sound(20 if not heat else 1500, *before) or min(e["vol0"] + e["vol"]) < 20000 or (e["d"] == 2 and not heat and tangled(e)) or (not e["sound"] and ("contact" in d or any(m["eos"] != "gamma" for m in d["mats"]))) or (not e["sound"] and (d["rk"] != 1 or min([p.get("sie0", 1) for p in e["pts"]]) <= 0)):
            left.append(1)
            if not heat and sound(20, *before) and sound(40, *after[:4], push) and min(e["vol0"]) >= 20000 and not (e["d"] == 2 and tangled(e)):
                e["only"] = e["sound"] = True                   # what nodes did is still to be explained
                out.append(e)
            break
        e["only"] = False
        if heat:
            e["sound"] = True
        elif not sound(24, e["vg"], [[p["st"], p["st0"]] for p in e["pts"]]):
            left.append(1)
            break
        out.append(e)
    return out


def tangled(e):
    """Whether a quadrilateral is folded before the step (seen from its middle)."""
    for el in e["elems"]:
        x = [e["pre"]["x"][n - 1] for n in el]
        mid = [sum(a[d] for a in x) / 4 for d in (0, 1)]
        for a, b in zip(x, x[1:] + x[:1]):
            if (b[0] - a[0]) * (mid[1] - a[1]) - (b[1] - a[1]) * (mid[0] - a[0]) <= 0:
                return True
    return False


def steps(ctx, part, methods, extra=(), model="MCHydro", num=6):
    jobs = [lambda: build(ctx), lambda: ctx.model_check(model, model + "Deep" if ctx.thorough else model, workers=4, timeout=3000)]
    exe, _, *cases = vlib.parallel(jobs + decks_of(ctx, True, 80 if ctx.thorough else num, extra=extra))
    decks = [d for c in cases for d in c if d["solvers"][0]["method"] in methods]
    left = []
    whole_ = run_decks(ctx, exe, decks, "state", lambda d, g: steps_seen(d, g, left))
    ctx.notes["runs"], ctx.notes["runs cut short where the mesh has collapsed"] = len(decks), len(left)
    ctx.sample_trace(whole_, 1)
    n = sum(1 for _ in open(whole_))
    ctx.validate("TraceHydro", whole_, chunk=max(10, n // vlib.NCPU + 1), what="a step of a run", timeout=3000, env={"PART": part})


def p21(ctx):
    steps(ctx, "bc", ("dynx_FE", "dynx_FE_rz"))


def p22(ctx):
    steps(ctx, "step", ("dynx_FE", "dynx_FE_rz"))


def p23(ctx):
    steps(ctx, "state", ("dynx_FE", "dynx_FE_rz"))


def p24(ctx):
    steps(ctx, "heat", ("thrmex_FE",))


def p26(ctx):
    """Strength, elasticity and erosion."""
    steps(ctx, "matter", ("dynx_FE", "dynx_FE_rz"), extra=("MATS",), model="MCMatter")
    for text in ctx.known_findings():
        if text.split()[0] == "at=HypoPlasticityRZModel::calc_stress" and "stress about an axis" in ctx.odd:
            ctx.report_known(text)


def p28(ctx):
    """Contact."""
    steps(ctx, "contact", ("dynx_FE",), extra=("CONTACT",), model="MCContact", num=3)


def p29(ctx):
    """Bonds between bodies."""
    steps(ctx, "bond", ("dynx_FE",), extra=("BOND",), model="MCBond", num=3)


def front_seen(d, g, left):
    """One line per step of a level set."""
    if g["how"] != "ok":
        return [{"how": g["how"], "err": g.get("err", "")[-300:], "solvers": d["solvers"]}]
    g, out = g["got"], []
    ev = [e for e in g["events"] if e["at"] != "end"]
    for a, b in zip(ev, ev[1:]):
        inside = [[p["mat"] + 1 for p in b["pts"] if p["e"] == k + 1] for k in range(len(g["elems"]))]
        e = {"how": "ok", "d": d["mesh"]["dims"], "rk": d["rk"], "cycle": b["cycle"], "dt": fx(b["dt"]), "elems": [[n + 1 for n in el] for el in g["elems"]], "in": inside,
             "mats": [{"front": m["front"], "speed": m["speed"]} for m in d["mats"]], "bcs": conditions(d, g, 0),
             "x": deep(b["x"], fx), "vol": deep(b["vol"], fx), "pre": deep(a["ls"], fx), "post": deep(b["ls"], fx), "grad": deep(b["gl"], fx)}
        if max(map(abs, e["pre"])) > 5 * ONE or max(abs(x) for v in e["grad"] for x in v) > 12 * ONE:
            left.append(1)
            break
        out.append(e)
    return out


def p27(ctx):
    """Level sets."""
    jobs = [lambda: build(ctx), lambda: ctx.model_check("MCFront", "MCFrontDeep" if ctx.thorough else "MCFront", workers=4, timeout=3000)]
    exe, _, *cases = vlib.parallel(jobs + decks_of(ctx, True, 60 if ctx.thorough else 5, extra=("FRONT",)))
    decks = [d for c in cases for d in c]
    left = []
    whole_ = run_decks(ctx, exe, decks, "state", lambda d, g: front_seen(d, g, left))
    ctx.notes["runs"], ctx.notes["runs cut short where a level set is out of range"] = len(decks), len(left)
    ctx.sample_trace(whole_, 1)
    n = sum(1 for _ in open(whole_))
    ctx.validate("TraceFront", whole_, chunk=max(10, n // vlib.NCPU + 1), what="a step of a level set", timeout=3000)


# ------------------------------------------------------------------- output files
def numbers(text):
    return [float(x) for x in text.split()]


def rows(v, n):
    return [v[i:i + n] for i in range(0, len(v), n)]


def read_vtu(path):
    """What a file of an unstructured grid says."""
    import xml.etree.ElementTree as ET
    piece = ET.parse(path).getroot().find("UnstructuredGrid/Piece")
    def arrays(where):
        out = []
        for a in piece.findall(where + "/DataArray"):
            n = int(a.get("NumberOfComponents", "1"))
            v = [shown(x) for x in numbers(a.text)]
            out.append({"name": a.get("Name", ""), "n": n, "v": rows(v, n)})
        return out
    cells = {a.get("Name"): [int(x) for x in a.text.split()] for a in piece.findall("Cells/DataArray")}
    ends = [0] + cells["offsets"]
    return {"points": arrays("Points")[0]["v"], "npoints": int(piece.get("NumberOfPoints")), "ncells": int(piece.get("NumberOfCells")),
            "cells": [[n + 1 for n in cells["connectivity"][a:b]] for a, b in zip(ends, ends[1:])], "types": cells["types"], "loose": len(cells["connectivity"]) - ends[-1],
            "point": arrays("PointData"), "cell": arrays("CellData")}


def read_vtm(path):
    import xml.etree.ElementTree as ET
    out = []
    for b in ET.parse(path).getroot().findall("vtkMultiBlockDataSet/Block"):
        for p in b.findall("Piece"):
            for s in p.findall("DataSet"):
                f = os.path.join(os.path.dirname(path), s.get("file"))
                out.append({"block": b.get("name"), "t": whole(float(s.get("time")), T), "there": os.path.exists(f), "file": read_vtu(f) if os.path.exists(f) else {}})
    return out


def read_index(d, solver):
    """The outputs that the index of a solver lists: time and file."""
    import xml.etree.ElementTree as ET
    if d["outs"]["format"] == "ensight":
        steps = open(d["dir"] + "/ensight/Outputs_SGH.case").read().split("time values:")
        n = int(steps[0].split("number of steps:")[1].split()[0])
        return [{"t": whole(x, T), "file": k if os.path.exists("%s/ensight/data/Outputs_SGH.%05d.geo" % (d["dir"], k)) and n == len(numbers(steps[1])) else -1} for k, x in enumerate(numbers(steps[1]))]
    base, out = d["dir"] + "/vtk/", []
    for s in ET.parse("%sFierro.solver%d.pvd" % (base, solver)).getroot().findall("Collection/DataSet"):
        f = s.get("file")
        out.append({"t": whole(float(s.get("timestep")), T), "file": int(f.split(".")[-2]) if os.path.exists(base + f) and f == "data/Fierro.solver%d.%s.vtm" % (solver, f.split(".")[-2]) else -1})
    return out


def read_table(path):
    return [[shown(x) for x in numbers(l)] for l in open(path) if l.strip() and not l.startswith("#")]


def read_ensight(base, k):
    tok = open("%s/data/Outputs_SGH.%05d.geo" % (base, k)).read().split("coordinates\n")[1].split()
    n = int(tok[0])
    kind, m = tok[1 + 3 * n], int(tok[2 + 3 * n])
    xs = [shown(float(x)) for x in tok[1:1 + 3 * n]]
    conn = [int(x) for x in tok[3 + 3 * n:]]
    def field(name, skip, width):
        f = "%s/data/Outputs_SGH.%05d.%s" % (base, k, name)
        v = [shown(float(x)) for x in open(f).read().split("\n")[skip:] if x.strip()]
        return v if width == 1 else [list(c) for c in zip(*rows(v, len(v) // 3))]
    return {"points": [list(c) for c in zip(*rows(xs, n))], "kind": kind, "cells": rows(conn, len(conn) // m), "ncells": m,
            "elem": [{"name": x, "v": field(x, 4, 1)} for x in ("den", "pres", "sie", "vol", "mass", "sspd", "speed", "mat_id")],
            "node": [{"name": x, "v": field(x, 4, 3)} for x in ("pos", "vel", "accel")]}


def outputs_seen(d, g, left):
    """One line per output: the state at its time and what its files say."""
    if g["how"] != "ok":
        return [{"how": g["how"], "err": g.get("err", "")[-300:], "solvers": d["solvers"], "outs": d["outs"]}]
    g, out, o = g["got"], [], d["outs"]
    names = {}
    for i, s in enumerate(d["solvers"]):
        ev = [e for e in g["events"] if e["solver"] == i]
        count, times = 0, []
        for k, (e, after) in enumerate(zip(ev, ev[1:])):
            if e["at"] == "end" or not (k == 0 or after["outs"] > e["outs"]):
                continue
            number, count = count, count + 1
            times.append(whole(e["t"], T))
            r = {"how": "ok", "d": d["mesh"]["dims"], "method": s["method"], "asked": {x: o[x] for x in ("elem", "node", "mat", "gauss")}, "format": o["format"], "number": number, "start": k == 0, "t": whole(e["t"], T),
                 "elems": [[n + 1 for n in el] for el in g["elems"]], "nmats": len(d["mats"]), "x": deep(e["x"], fx), "dt": fx(e["dt"]), "vol": deep(e["vol"], fx)}
            for q in ("v", "m", "T", "ls", "gl", "vg"):
                r[q] = deep(e[q], shown) if q in e else []
            r["v0"] = deep(ev[max(k - 1, 0)]["v"], fx) if "v" in e else []
            r["pts"] = [{"e": p["e"], "mat": p["mat"], "gone": 1048576 if p.get("gone") else 0, "st": deep(p.get("st", []), fx)} |
                        {q: fx(p.get(q, 0.0 if q != "gvf" else 1.0)) for q in ("vf", "gvf", "den", "mass", "sie", "pres", "sspd")} for p in e["pts"]]
            def sound(most, *xs):
                return all(abs(x) < most * ONE if not isinstance(x, list) else sound(most, *x) for x in xs)
            if not sound(24, r["x"], r["v"], r["ls"], r["vol"], r["m"], [[p[q] for q in ("den", "mass", "sie", "pres", "sspd", "st")] for p in r["pts"]]) or not sound(880, r["T"], r["vg"]) or min(r["vol"]) < 20000:
                left.append(1)
                continue
            try:
                if o["format"] in ("viz", "viz_and_state"):
                    r["viz"] = read_vtm("%s/vtk/data/Fierro.solver%d.%05d.vtm" % (d["dir"], i, number))
                if o["format"] in ("state", "viz_and_state"):
                    stamp = "%6.4e" % e["t"]
                    names[stamp] = len(out)
                    r["state"] = {"mat": read_table("%s/state/mat_pt_state_t_%s.txt" % (d["dir"], stamp)), "node": read_table("%s/state/node_state_t_%s.txt" % (d["dir"], stamp))}
                if o["format"] == "ensight":
                    r["ensight"] = read_ensight(d["dir"] + "/ensight", number)
            except (OSError, ValueError, IndexError, KeyError, TypeError, AttributeError, SyntaxError) as err:
                r["unreadable"] = "%s: %s" % (type(err).__name__, str(err)[:200])
            out.append((r, stamp if "state" in r else None))
        if ev and o["format"] != "state":
            r = {"how": "ok", "solver": i, "solvers": d["solvers"], "outs": o, "times": times}
            try:
                r["index"] = read_index(d, i)
            except (OSError, ValueError, IndexError, KeyError, TypeError, AttributeError, SyntaxError) as err:
                r["unreadable"] = "%s: %s" % (type(err).__name__, str(err)[:200])
            out.append((r, None))
    # of two outputs with one time to the digits of the name, the later stays
    return [r | ({"over": True} if stamp is not None and names[stamp] != i else {}) for i, (r, stamp) in enumerate(out)]


def p25(ctx):
    """Output files say what the state is."""
    jobs = [lambda: build(ctx), lambda: ctx.model_check("MCOutput", workers=2, timeout=3000)]
    gen = lambda i: lambda: ctx.generate("GenRun", args=["-simulate", "num=%d" % (80 if ctx.thorough else 7), "-depth", "40", "-seed", str(ctx.seed * 100 + 50 + i)], env={"SHORT": "1", "OUT": "1"})
    exe, _, *cases = vlib.parallel(jobs + [gen(i) for i in range(4)])
    decks = [d for c in cases for d in c]
    left = []
    whole_ = run_decks(ctx, exe, decks, "state", lambda d, g: outputs_seen(d, g, left))
    ctx.notes["runs"], ctx.notes["outputs left out (state out of range)"] = len(decks), len(left)
    ctx.sample_trace(whole_, 1)
    n = sum(1 for _ in open(whole_))
    ctx.validate("TraceOutput", whole_, chunk=max(10, n // vlib.NCPU + 1), what="an output of a run", timeout=3000)
