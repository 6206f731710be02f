"""What a run starts from: decks generated by the specification, set up by the real code."""
import json, os, random
import mp, vlib
from yaml_checks import drv

BAD = 2000000000                    # no number of the specification is this large
U, Q = 1024.0, 4.0


def num(rng, v):
    f = ["%.17g" % v, "%.17e" % v]
    f += ["%.12f" % v] if float("%.12f" % v) == v else []
    return rng.choice(f)


def vec(rng, v, scale=U):
    return "[" + ", ".join(num(rng, x / scale) for x in v) + "]"


def field(rng, f, value="value"):
    out = {"type": f["t"], value: num(rng, f["v"] / Q)}
    if f["t"] != "uniform":
        out["slope"] = num(rng, f["s"] / Q)
    if f["t"] in ("radial", "spherical"):
        out["origin"] = vec(rng, f["o"])
    return out


def uniform(rng, v):
    return {"type": "uniform", "value": num(rng, v / Q)}


def region(rng, d, r):
    vol = {"type": r["vol"]}
    if r["vol"] == "box":
        for a, i in zip("xyz", range(3)):
            vol[a + "1"], vol[a + "2"] = num(rng, r["lo"][i] / U), num(rng, r["hi"][i] / U)
    elif r["vol"] in ("cylinder", "sphere"):
        vol["radius1"], vol["radius2"], vol["origin"] = num(rng, r["r"][0] / U), num(rng, r["r"][1] / U), vec(rng, r["org"])
        if r["vol"] == "cylinder":
            vol["z1"], vol["z2"] = num(rng, r["lo"][2] / U), num(rng, r["hi"][2] / U)
    elif r["vol"] == "vtu_file":
        vol["part_id"] = str(r["part"])
    out = {"volume": vol, "material_id": str(r["mat"]), "solver_id": "0"}
    vel = {"type": r["velt"]}
    if r["velt"] == "cartesian":
        vel.update({c: num(rng, x / Q) for c, x in zip("uvw", r["vel"])})
    elif r["velt"] in ("radial", "spherical"):
        vel["speed"] = num(rng, r["speed"] / Q)
    out["velocity"] = vel
    if d["solver"] == "level_set":
        out["level_set"] = field(rng, r["ls"])
    else:
        out["density"] = uniform(rng, r["den"])
        if r["energy"] in ("sie", "both"):
            out["specific_internal_energy"] = uniform(rng, r["sie"])
        if r["energy"] in ("ie", "both"):
            out["internal_energy"] = uniform(rng, r["ie"])
        if d["solver"] == "thrmex_FE":
            out["temperature"], out["thermal_conductivity"], out["specific_heat"] = (uniform(rng, r[k]) for k in ("temp", "cond", "heat"))
    if r["vf"]["t"] != "none":
        out["volume_fraction"] = field(rng, r["vf"])
    return out


def tree(rng, t, pad, out):
    for k in rng.sample(sorted(t), len(t)):
        if isinstance(t[k], dict):
            out.append("%s%s:" % (pad, k))
            tree(rng, t[k], pad + "    ", out)
        elif isinstance(t[k], list):
            out.append("%s%s:" % (pad, k))
            out.extend("%s    - %s" % (pad, x) for x in t[k])
        else:
            out.append("%s%s: %s" % (pad, k, t[k]))


def deck_yaml(rng, d, mesh):
    """The text of a deck (mesh: its mesh_options)."""
    out = ["dynamic_options:", "    time_final: 1.0", "    cycle_stop: 10", "mesh_options:"]
    tree(rng, mesh, "    ", out)
    out += ["output_options:", "    output_file_format: state", "    graphics_time_step: 1.0"]
    if "max" in d:
        out += ["multimaterial_options:", "    max_num_mats_per_element: %d" % d["max"]]
    out += ["solver_options:", "  - solver:", "        method: " + d["solver"], "        id: 0"]
    if d["bcs"]:
        out.append("boundary_conditions:")
        for s in d["bcs"]:
            surf = {"type": s["type"], "tolerance": num(rng, s["tol"] / U)}
            if s["type"] in ("cylinder", "sphere"):
                surf["radius"], surf["origin"] = num(rng, s["at"] / U), vec(rng, s["org"])
            else:
                surf["plane_position"] = num(rng, s["at"] / U)
            out.append("  - boundary_condition:")
            bc = {"surface": surf, "solver_id": "0"}
            if d["solver"] == "thrmex_FE":
                bc.update({"temperature_model": "constant", "temperature_bc_global_vars": ["300"]})
            elif d["solver"] != "level_set":
                bc["velocity_model"] = "fixed"
            tree(rng, bc, "        ", out)
    out.append("materials:")
    for m in range(d["mats"]):
        mat = {"id": str(m)}
        if d["solver"] == "level_set":
            mat.update({"level_set_type": "evolve_front", "normal_velocity": "1.0"})
        else:
            mat.update({"eos_model_type": "decoupled", "eos_model": "gamma_law_gas", "eos_global_vars": ["1.5", "1.0E-14", "1.0"],
                        "dissipation_model": "MARS_rz" if d["solver"] == "dynx_FE_rz" else "MARS", "dissipation_global_vars": ["1.0", "1.0", "1.333", "1.333", "0.0", "1.0"]})
        out.append("  - material:")
        tree(rng, mat, "        ", out)
    out.append("regions:")
    for r in d["regions"]:
        out.append("  - region:")
        tree(rng, region(rng, d, r), "        ", out)
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ mesh files
VTK = (0, 1, 3, 2, 4, 5, 7, 6)      # local nodes of a hexahedron in the order of the file formats


def mesh_file(rng, m, kind, path):
    """Writes the elements of m to a file in one of the formats, with its nodes in any order."""
    first = m.get("apart", 0)                          # bodies share no nodes
    elems = [[tuple(p) + (k < first,) for p in e] for k, e in enumerate(m["elems"])]
    nodes = sorted({p for e in elems for p in e})
    rng.shuffle(nodes)
    at = {p: i for i, p in enumerate(nodes)}
    scale = [rng.choice([1.0, 1.0, 0.5, 2.0, 0.25]) for _ in range(3)]
    co = [[x / U / s for x, s in zip(p[:3], scale)] for p in nodes]
    f17 = lambda x: rng.choice(["%.15g", "%.12f", "%.15e"]) % x
    conn = [[at[p] for p in e] for e in elems]
    reord = [[c[l] for l in VTK] for c in conn]
    L = []
    if kind == "geo":
        L += ["line 1", "line 2", "node id assign", "element id assign", "part", "         1", "Mesh", "coordinates", "%10d" % len(co)]
        L += ["%s" % f17(co[i][d]) for d in range(3) for i in range(len(co))]
        L += ["hexa8", "%10d" % len(conn)] + ["".join("%10d" % (n + 1) for n in c) for c in reord]
    elif kind == "inp":
        ids = list(range(1, len(co) + 1)) if rng.random() < 0.4 else rng.sample(range(1, 5 * len(co) + 5), len(co))
        L += ["*Heading", " test", "** Job name: Job-1 Model name: Model-1", "*Preprint, echo=NO, model=NO, history=NO, contact=NO", "**", "*Part, name=Part-1", "*Node"]
        L += ["%7d, %s, %s, %s" % ((ids[i],) + tuple(f17(x) for x in co[i])) for i in range(len(co))]
        L += ["*Element, type=C3D8R"]
        L += ["%d, %s" % (k + 1, rng.choice([", ", ",", ",  "]).join(str(ids[n]) for n in c)) for k, c in enumerate(reord)]
        L += ["*End Part", "**  ", "** ASSEMBLY", "*Assembly, name=Assembly", "*Instance, name=Part-1-1, part=Part-1", "*End Instance", "**", "*End Assembly"]
    elif kind == "vtk":
        L += ["# vtk DataFile Version 3.0", "Hexahedral element example", "ASCII", "DATASET UNSTRUCTURED_GRID"] + ([""] if rng.random() < 0.5 else []) + ["POINTS %d float" % len(co)]
        L += [" ".join(f17(x) for x in c) for c in co]
        L += ["", "CELLS %d %d" % (len(conn), 9 * len(conn))] + [" ".join(map(str, [8] + c)) for c in reord]
        L += ["", "CELL_TYPES %d" % len(conn)] + ["12"] * len(conn)
    else:
        cell = rng.choice([12, 12, 11])
        wrap = lambda xs, k: [" ".join(xs[i:i + k]) for i in range(0, len(xs), k)]
        L += ['<?xml version="1.0"?>', '<VTKFile type="UnstructuredGrid" version="1.0" byte_order="LittleEndian" header_type="UInt64">', "  <UnstructuredGrid>",
              '    <Piece NumberOfPoints="%d" NumberOfCells="%d">' % (len(co), len(conn)), "      <PointData>", "      </PointData>"]
        L += ["      <CellData>", '        <DataArray type="Int32" Name="ObjectId" format="ascii">'] + ["          " + x for x in wrap([str(p) for p in m["part"]], rng.choice([1, 6]))]
        L += ["        </DataArray>", "      </CellData>", "      <Points>", '        <DataArray type="Float64" Name="Points" NumberOfComponents="3" format="ascii">']
        L += ["          " + x for x in wrap([f17(x) for c in co for x in c], rng.choice([3, 6, 7]))] + ["        </DataArray>", "      </Points>", "      <Cells>"]
        L += ['        <DataArray type="Int64" Name="connectivity" format="ascii">'] + ["          " + x for x in wrap([str(n) for c in (reord if cell == 12 else conn) for n in c], rng.choice([8, 12]))]
        L += ["        </DataArray>", '        <DataArray type="Int64" Name="offsets" format="ascii">'] + ["          " + str(8 * (i + 1)) for i in range(len(conn))]
        L += ["        </DataArray>", '        <DataArray type="UInt8" Name="types" format="ascii">'] + ["          " + x for x in wrap([str(cell)] * len(conn), 6)]
        L += ["        </DataArray>", "      </Cells>", "    </Piece>", "  </UnstructuredGrid>", "</VTKFile>"]
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")
    return {a: repr(s) for a, s in zip(("scale_x", "scale_y", "scale_z"), scale) if s != 1.0 or rng.random() < 0.3}


def mesh_options(rng, d, base):
    m = d["mesh"]
    if m["kind"] == "file":
        kind = "vtu" if d["parts"] else rng.choice(["geo", "inp", "vtk", "vtk", "vtu"])
        d["format"] = kind
        out = mesh_file(rng, m, kind, base + "." + kind)
        out.update({"source": "file", "file_path": os.path.basename(base) + "." + kind})
        out["num_dims"] = "3"
        return out
    out = {"source": "generate", "type": m["kind"], "num_dims": str(m["dims"]), "origin": vec(rng, m["org"])}
    if m["kind"] == "box":
        out.update({"length": vec(rng, [n * h for n, h in zip(m["n"], m["h"])]), "num_elems": "[" + ", ".join(map(str, m["n"])) + "]"})
    else:
        out.update({"inner_radius": num(rng, m["r"][0] / U), "outer_radius": num(rng, m["r"][1] / U), "starting_angle": str(15 * m["a"][0]), "ending_angle": str(15 * m["a"][1]),
                    "num_radial_elems": str(m["n"][0]), "num_angular_elems": str(m["n"][1])})
    return out


# ------------------------------------------------------------- what was observed
def exact(x, scale):
    v = x * scale
    r = round(v) if abs(v) < BAD else BAD
    return r if abs(v - r) <= 1e-6 * max(1.0, abs(v)) and abs(r) < BAD else BAD


def near(x, scale):
    v = x * scale
    return round(v) if abs(v) < BAD else BAD


def seen(d, g):
    m = d["mesh"]
    pos = near if m["kind"] == "polar" else exact
    out = {"nodes": [[pos(x, U) for x in p] for p in g["nodes"]], "elems": [[n + 1 for n in e] for e in g["elems"]],
           "sets": [{k: ([[n + 1 for n in f] for f in s[k]] if k == "faces" else [n + 1 for n in s[k]]) for k in s} for s in g["sets"]]}
    if m["kind"] == "polar":
        out["vol"] = [near(v, 6 * 512.0 ** 3) for v in g["vol"]]
    else:
        out["vol"] = [exact(v, (12 if m["dims"] == 3 else 6) * 128.0 ** 3) for v in g["vol"]]
    bins = []
    for e, bs in enumerate(g["bins"]):
        row = []
        for b in bs:
            c = {"mat": b["mat"], "vf": near(b["vf"], 4096), "gvf": exact(b["gvf"], 4096) if "gvf" in b else 4096}
            if "den" in b:
                mass = b["den"] * g["vol"][e] * b["vf"]
                c.update(den=exact(b["den"], Q), sie=exact(b["sie"], Q), mass=exact(b["mass"] / mass, Q) if mass else (4 if b["mass"] == 0 else BAD), energy=exact(b["sie"] * b["mass"], Q) if b["mass"] else -1)
            c.update({k: exact(b[k], Q) for k in ("cond", "heat") if k in b})
            row.append(c)
        bins.append(row)
    out["bins"], out["mats"] = bins, g["mats"]
    if "ls" in g:
        out["ls"] = [near(v, 4096) for v in g["ls"]]
    if "vel" in g:
        out["vel"] = [[near(x, U) for x in v] for v in g["vel"]]
    if "temp" in g:
        out["temp"] = [exact(v, Q) for v in g["temp"]]
    return out


def build(ctx):
    return mp.build(ctx, "setup", drv("setup_driver.cpp"), mp.sources(".", skip=mp.SKIP), opt="-O0")


def run_decks(ctx, exe, decks, convert=seen):
    """Each deck set up by the real code; the trace of what it starts from."""
    def one(i):
        rng = random.Random(ctx.seed * 97 + i)
        wd = ctx.path("w%d" % i)
        os.makedirs(wd)
        mine = decks[i::vlib.NCPU]
        with open(os.path.join(wd, "list"), "w") as f:
            for k, d in enumerate(mine):
                base = os.path.join(wd, "d%d" % k)
                y = deck_yaml(rng, d, mesh_options(rng, d, base))
                open(base + ".yaml", "w").write(y)
                f.write(base + ".yaml\n")
        ctx.run([exe, "list", "out"], cwd=wd, timeout=3000)
        got = open(os.path.join(wd, "out")).read().splitlines()
        if len(got) != len(mine):
            raise vlib.CheckError("the setup driver answered %d of %d decks" % (len(got), len(mine)))
        tr = os.path.join(wd, "trace")
        with open(tr, "w") as f:
            for d, g in zip(mine, got):
                g = json.loads(g)
                e = {"deck": d, "how": g["how"]}
                if g["how"] == "ok":
                    e["got"] = convert(d, g["got"])
                else:
                    e["err"] = g.get("err", "")[-300:]
                f.write(json.dumps(e) + "\n")
        return tr
    trs = vlib.parallel([lambda i=i: one(i) for i in range(vlib.NCPU)])
    whole = ctx.path("trace")
    how = {}
    with open(whole, "w") as f:
        for t in trs:
            for line in open(t):
                h = json.loads(line)["how"]
                how[h] = how.get(h, 0) + 1
                f.write(line)
    ctx.notes["decks"] = how
    return whole


def check(ctx, part, want):
    num = 120 if ctx.thorough else 10
    jobs = [lambda: build(ctx), lambda: ctx.model_check("MCSetup", "MCSetupDeep" if ctx.thorough else "MCSetup", workers=4, timeout=3000)]
    jobs += [lambda i=i: ctx.generate("GenSetup", args=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(ctx.seed * 100 + i)]) for i in range(4)]
    exe, _, *cases = vlib.parallel(jobs)
    seen_, decks = set(), []
    for c in cases:
        for d in c:
            k = json.dumps(d, sort_keys=True)
            if k not in seen_ and want(d):
                seen_.add(k)
                decks.append(d)
    whole = run_decks(ctx, exe, decks)
    ctx.sample_trace(whole, 2)
    ctx.validate("TraceSetup", whole, chunk=max(40, len(decks) // vlib.NCPU + 1), what="what a run starts from", timeout=3000, env={"PART": part})


def p16(ctx):
    check(ctx, "mesh", lambda d: d["mesh"]["kind"] != "file")


def p17(ctx):
    check(ctx, "sets", lambda d: d["bcs"])


def p18(ctx):
    check(ctx, "fill", lambda d: True)


def p19(ctx):
    check(ctx, "mesh", lambda d: d["mesh"]["kind"] == "file")
