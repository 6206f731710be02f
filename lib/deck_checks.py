"""Input decks of the multiphysics code: generated by the specification, read by the real parser."""
import json, os, random
import mp, vlib
from yaml_checks import drv

INTS = {"num_dims", "polynomial_order", "num_radial_elems", "num_angular_elems", "cycle_stop", "rk_num_stages", "graphics_iteration_step", "id", "solver_id",
        "material_id", "volume.part_id", "max_num_mats_per_element", "contact_bc_vars", "num_elems", "use_moving_heat_source"}
LISTS = {"elem_field_outputs", "node_field_outputs", "mat_pt_field_outputs", "gauss_pt_field_outputs", "velocity_bc_global_vars", "temperature_bc_global_vars",
         "stress_bc_global_vars", "contact_bc_vars", "eos_global_vars", "strength_global_vars", "dissipation_global_vars",
         "mat_equilibration_global_vars", "geo_equilibration_global_vars"}
VECS = {"origin", "length", "num_elems", "surface.origin", "volume.origin", "level_set.origin", "volume_fraction.origin"}
TITLE = {"mesh": "mesh_options", "dynamic": "dynamic_options", "output": "output_options", "multi": "multimaterial_options"}
MANY = {"solvers": ("solver_options", "solver"), "bcs": ("boundary_conditions", "boundary_condition"), "regions": ("regions", "region"), "materials": ("materials", "material")}


def number(rng, word, text):
    """Another way to write the same number."""
    if word in INTS:
        return text
    try:
        v = float(text)
    except ValueError:
        return text
    forms = [text, text, "%.17g" % v, "%e" % v, "%.12E" % v]
    if "e" not in text:
        forms += [text + "0" if "." in text else text + ".0", "%.6f" % v]
        if 0 < abs(v) < 1:
            forms.append(text.replace("0.", ".", 1))
    forms = [f for f in forms if float(f) == v]
    return rng.choice(forms)


def write_entry(rng, e, pad, out):
    groups = {}
    for w, v in e:
        g, _, sub = w.partition(".")
        groups.setdefault(g, []).append((w, sub, v))
    for g in rng.sample(sorted(groups), len(groups)):
        items = groups[g]
        if items[0][1]:
            out.append("%s%s:" % (pad, g))
            for w, sub, v in rng.sample(items, len(items)):
                write_value(rng, w, sub, v, pad + "  ", out)
        else:
            write_value(rng, g, g, items[0][2], pad, out)


def write_value(rng, word, name, v, pad, out):
    if word in LISTS:
        out.append("%s%s:" % (pad, name))
        out.extend("%s  - %s" % (pad, number(rng, word, x)) for x in v)
    elif word in VECS and len(v) == 1 and rng.random() < 0.5:
        if rng.random() < 0.5:   # not an inline list
            out.append("%s%s: %s" % (pad, name, number(rng, word, v[0])))
        else:
            out.extend(["%s%s:" % (pad, name)] + ["%s  - %s" % (pad, number(rng, word, v[0]))] * 3)
    elif word in VECS:
        out.append("%s%s: [%s]" % (pad, name, rng.choice([",", ", ", " , "]).join(number(rng, word, x) for x in v)))
    else:
        out.append("%s%s: %s" % (pad, name, number(rng, word, v[0])))


def render(rng, d):
    parts = []
    for s in TITLE:
        if d[s]:
            out = ["%s:" % TITLE[s]]
            write_entry(rng, d[s], "    ", out)
            parts.append(out)
    for s, (title, one) in MANY.items():
        if d[s]:
            out = ["%s:" % title]
            for e in d[s]:
                out.append("  - %s:" % one)
                write_entry(rng, e, "        ", out)
            parts.append(out)
    rng.shuffle(parts)
    return "\n".join("\n".join(p) for p in parts) + "\n"


def pairs(deck):
    p = lambda e: sorted(([w, v] for w, v in e.items()), key=lambda x: x[0]) if isinstance(e, dict) else []
    return {s: p(deck[s]) for s in TITLE} | {s: [p(e) for e in deck[s]] for s in MANY}


def build(ctx):
    return mp.build(ctx, "deck", drv("deck_driver.cpp"), mp.sources("input", skip=("parse_material_inputs.cpp", "parse_bdy_conds_inputs.cpp")), opt="-O0")


def p15(ctx):
    depth, num = (600, 160) if ctx.thorough else (120, 8)
    jobs = [lambda: build(ctx), lambda: ctx.generate("MCDeck", workers=3)]
    jobs += [lambda i=i: ctx.generate("MCDeck", "SimDeck", args=["-simulate", "num=%d" % (num // 4), "-depth", str(depth), "-seed", str(ctx.seed * 100 + i)]) for i in range(4)]
    exe, *cases = vlib.parallel(jobs)
    seen, decks = set(), []
    for c in cases:
        for d in c:
            p = pairs(d)
            k = json.dumps(p)
            if k not in seen:
                seen.add(k)
                decks.append(p)
    rng = random.Random(ctx.seed)

    def one(i):
        mine = decks[i::vlib.NCPU]
        r = random.Random(ctx.seed * 31 + i)
        inp, res, tr = (ctx.path("%s%d" % (n, i)) for n in ("decks", "results", "trace"))
        with open(inp, "w") as f:
            f.writelines(render(r, d) + "%%%\n" for d in mine)
        ctx.run([exe, inp, res], timeout=3000)
        got = open(res).read().splitlines()
        if len(got) != len(mine):
            raise vlib.CheckError("the deck driver answered %d of %d decks" % (len(got), len(mine)))
        with open(tr, "w") as f:
            for d, g in zip(mine, got):
                f.write('{"deck":%s,%s\n' % (json.dumps(d), g[1:]))
        return tr
    trs = vlib.parallel([lambda i=i: one(i) for i in range(vlib.NCPU)])
    whole = ctx.path("trace")
    with open(whole, "w") as f:
        for t in trs:
            f.write(open(t).read())
    how = {}
    for line in open(whole):
        h = json.loads(line)["how"]
        how[h] = how.get(h, 0) + 1
    ctx.notes["decks"] = how
    ctx.sample_trace(whole, 2)
    ctx.validate("TraceDeck", whole, chunk=max(200, len(decks) // vlib.NCPU + 1), what="input deck", timeout=3000)
