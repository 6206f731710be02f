---------------------------------- MODULE Deck --------------------------------
(* What an input deck of the multiphysics code means: which decks are taken,  *)
(* and which settings a deck that is taken asks for.                          *)
(*                                                                            *)
(* A deck has the sections mesh, dynamic, output and multi, and lists of      *)
(* solvers, bcs (boundary conditions), regions and materials.  A section is a *)
(* function from words ("density.value" is the word value below density) to   *)
(* values; every value is a sequence of texts (one text for a number or name).*)
(* The settings have the same shape, with every word of the schema in its     *)
(* domain.  <<"?">> stands for a setting the deck does not determine.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Free == <<"?">>
\* kinds: "num" and "text" (one value), "name" (one of opt), "vec" (two or three numbers), "list" (numbers), "names" (names out of opt)
Word(k, def, pool) == [k |-> k, def |-> def, pool |-> pool, opt |-> {}, min |-> 1, max |-> 100]
Real(def) == Word("num", <<def>>, {<<"0.25">>, <<"3">>, <<"1e-09">>, <<"-1.5">>})
Pos(def) == Word("num", <<def>>, {<<"0.25">>, <<"3">>, <<"120000">>})
Int(def) == Word("num", <<def>>, {<<"1">>, <<"2">>, <<"17">>})
Vec == Word("vec", <<"0", "0", "0">>, {<<"0", "0", "0">>, <<"1", "2.5", "-3">>, <<"0.5", "4">>, <<"2">>, <<"1", "2", "3", "4">>})
Text == Word("text", <<"">>, {<<"some/mesh.vtk">>})
Name(def, opt) == [Word("name", <<def>>, {<<o>> : o \in opt} \cup {<<"no_such_option">>}) EXCEPT !.opt = opt]
Names(opt) == [Word("names", <<>>, {<<o>> : o \in opt} \cup {<<"no_such_option">>} \cup {<<a, b>> : a \in opt, b \in opt}) EXCEPT !.opt = opt]
Long(n) == [i \in 1 .. n |-> ToString(i)]
List(min, max) == [Word("list", <<>>, {<<"1.5">>, <<"0.5", "-2">>, <<"1", "2", "3">>, Long(6), Long(10), Long(11), Long(100), Long(101)}) EXCEPT !.min = min, !.max = max]
Schema(f, req) == [w \in DOMAIN f |-> f[w] @@ [req |-> w \in req]]

Scalars == {"uniform", "radial", "spherical", "x_linear", "y_linear", "z_linear", "tg_vortex"}
Fields == {"density", "specific_internal_energy", "internal_energy", "specific_heat", "thermal_conductivity", "temperature"}  \* uniform or tg_vortex
Graded == {"level_set", "volume_fraction"}
GaussFields == {"density", "specific_internal_energy", "internal_energy", "specific_heat", "thermal_conductivity", "level_set"}
NodeFields == {"velocity", "temperature"}

MeshSchema == Schema(
    [w \in {"source"} |-> Name("none", {"generate", "file"})] @@
    [w \in {"num_dims"} |-> Word("num", <<"3">>, {<<"2">>, <<"3">>})] @@
    [w \in {"type"} |-> [Name("?", {"box", "polar"}) EXCEPT !.def = Free]] @@
    [w \in {"file_path"} |-> Text] @@
    [w \in {"origin", "length"} |-> Vec] @@
    [w \in {"num_elems"} |-> Word("vec", <<"1", "1", "1">>, {<<"1", "1", "1">>, <<"4", "5", "6">>, <<"7", "8">>, <<"9">>})] @@
    [w \in {"polynomial_order"} |-> Int("1")] @@
    [w \in {"inner_radius", "starting_angle"} |-> Real("0")] @@
    [w \in {"outer_radius", "scale_x", "scale_y", "scale_z"} |-> Real("1")] @@
    [w \in {"ending_angle"} |-> Real("90")] @@
    [w \in {"num_radial_elems", "num_angular_elems"} |-> Int("10")],
    {"source", "num_dims"})

DynamicSchema == Schema(
    [w \in {"time_initial"} |-> [Pos("0") EXCEPT !.def = Free]] @@
    [w \in {"time_final"} |-> Pos("1")] @@ [w \in {"dt_min"} |-> Pos("1e-08")] @@ [w \in {"dt_max"} |-> Pos("0.01")] @@
    [w \in {"dt_start"} |-> Pos("1e-05")] @@ [w \in {"dt_cfl"} |-> Pos("0.4")] @@ [w \in {"cycle_stop"} |-> Int("2000000")] @@
    [w \in {"fuzz"} |-> Pos("1e-16")] @@ [w \in {"tiny"} |-> Pos("1e-12")] @@ [w \in {"small"} |-> Pos("1e-08")] @@
    [w \in {"rk_num_stages"} |-> Int("2")],
    {"time_final", "cycle_stop"})

OutputSchema == Schema(
    [w \in {"output_file_format"} |-> Name("viz", {"viz", "ensight", "state", "viz_and_state"})] @@
    [w \in {"timer_output_level"} |-> Name("thorough", {"thorough"})] @@
    [w \in {"graphics_time_step"} |-> Pos("1")] @@ [w \in {"graphics_iteration_step"} |-> Int("2000000")] @@
    [w \in {"elem_field_outputs"} |-> Names({"den", "pres", "stress", "sie", "sspd", "mass"})] @@
    [w \in {"node_field_outputs"} |-> Names({"coords", "vel", "temp", "mass", "force", "grad_level_set"})] @@
    [w \in {"mat_pt_field_outputs"} |-> Names({"den", "pres", "stress", "sie", "sspd", "mass", "volfrac", "eroded"})] @@
    [w \in {"gauss_pt_field_outputs"} |-> Names({"volume", "level_set", "vel_grad"})],
    {})

Id == Word("num", <<"0">>, {<<"0">>, <<"1">>, <<"2">>, <<"-1">>})
SolverSchema == Schema(
    [w \in {"method"} |-> Name("none", {"dynx_FE", "dynx_FE_rz", "thrmex_FE", "level_set", "qstatx_FE"})] @@
    [w \in {"id"} |-> Id] @@ [w \in {"time_end"} |-> Real("0")] @@
    [w \in {"use_moving_heat_source"} |-> Word("num", <<"false">>, {<<"true">>, <<"false">>})],
    {"method", "id"})

BcSchema == Schema(
    [w \in {"solver_id"} |-> Id] @@
    [w \in {"surface.type"} |-> [Name("?", {"x_plane", "y_plane", "z_plane", "cylinder", "sphere", "global"}) EXCEPT !.def = Free]] @@
    [w \in {"surface.plane_position", "surface.radius"} |-> Real("0")] @@
    [w \in {"surface.tolerance"} |-> Pos("1e-07")] @@ [w \in {"surface.origin"} |-> Vec] @@
    [w \in {"velocity_model"} |-> Name("none", {"none", "constant", "time_varying", "reflected", "fixed", "user_defined", "piston"})] @@
    [w \in {"temperature_model"} |-> Name("none", {"none", "constant", "convection", "radiation"})] @@
    [w \in {"stress_model"} |-> Name("none", {"none", "constant", "time_varying", "user_defined", "global_contact", "preload_contact", "fracture"})] @@
    [w \in {"velocity_bc_global_vars", "temperature_bc_global_vars", "stress_bc_global_vars"} |-> List(1, 100)] @@
    [w \in {"contact_bc_vars"} |-> [Word("list", <<>>, {<<"12">>, <<"3", "40">>, <<"3", "4", "5">>}) EXCEPT !.min = 2, !.max = 2]],
    {"solver_id"})

RegionSchema == Schema(
    [w \in {"solver_id"} |-> [Id EXCEPT !.def = Free]] @@
    [w \in {"material_id"} |-> Int("0")] @@
    [w \in {"volume.type"} |-> Name("none", {"global", "box", "sphere", "cylinder", "voxel_file", "vtu_file"})] @@
    [w \in {"volume.file_path"} |-> Text] @@ [w \in {"volume.origin"} |-> Vec] @@
    [w \in {"volume." \o x : x \in {"x1", "x2", "y1", "y2", "z1", "z2", "radius1", "radius2"}} |-> Real("0")] @@
    [w \in {"volume.scale_" \o x : x \in {"x", "y", "z"}} |-> Real("1")] @@ [w \in {"volume.part_id"} |-> Int("1")] @@
    [w \in {f \o ".value" : f \in (Fields \cup Graded) \ {"volume_fraction"}} |-> Pos("0")] @@
    [w \in {"volume_fraction.value"} |-> Pos("1")] @@
    [w \in {f \o ".slope" : f \in Graded} |-> Real("0")] @@ [w \in {f \o ".origin" : f \in Graded} |-> Vec] @@
    [w \in {f \o ".type" : f \in Fields} |-> [Name("none", {"uniform", "tg_vortex"}) EXCEPT !.pool = {<<o>> : o \in Scalars \cup {"static", "no_such_option"}}]] @@
    [w \in {"level_set.type"} |-> Name("none", Scalars)] @@ [w \in {"volume_fraction.type"} |-> Name("uniform", Scalars)] @@
    [w \in {"velocity." \o x : x \in {"u", "v", "w", "speed"}} |-> Real("0")] @@
    [w \in {"velocity.type"} |-> Name("none", {"static", "cartesian", "radial", "spherical", "radial_linear", "spherical_linear", "tg_vortex"})],
    {"material_id", "volume.type"})
Below(f) == {w \in DOMAIN RegionSchema : \E x \in {".type", ".value", ".slope", ".origin", ".u", ".v", ".w", ".speed"} : w = f \o x}

MaterialSchema == Schema(
    [w \in {"id"} |-> Id] @@
    [w \in {"eos_model_type"} |-> Name("no_eos", {"no_eos", "coupled", "decoupled"})] @@
    [w \in {"eos_model"} |-> Name("unset", {"no_eos", "gamma_law_gas", "void", "user_defined_eos", "host_user_defined_eos", "linear_elastic_eos"})] @@
    [w \in {"strength_model_type"} |-> [Name("no_strength", {"no_strength", "increment_based"}) EXCEPT !.pool = @ \cup {<<"state_based">>}]] @@
    [w \in {"strength_model"} |-> Name("unset", {"no_strength", "user_defined_strength", "hypo_plasticity_strength", "hypo_plasticity_strength_rz", "host_ann_strength"})] @@
    [w \in {"dissipation_model"} |-> Name("no_dissipation", {"no_dissipation", "MARS", "MARS_rz", "directional_MARS", "directional_MARS_rz"})] @@
    [w \in {"erosion_model"} |-> Name("unset", {"no_erosion", "basic"})] @@
    [w \in {"level_set_type"} |-> Name("no_level_set", {"no_level_set", "evolve_front"})] @@
    [w \in {"erode_tension_val", "erode_density_val"} |-> [Real("0") EXCEPT !.def = Free]] @@
    [w \in {"normal_velocity", "curvature_velocity"} |-> Real("0")] @@
    [w \in {"eos_global_vars", "strength_global_vars"} |-> List(1, 100)] @@
    [w \in {"dissipation_global_vars"} |-> List(6, 10)],
    {"id"})

MultiSchema == Schema(
    [w \in {"max_num_mats_per_element"} |-> Int("3")] @@
    [w \in {"mat_equilibration_model", "geo_equilibration_model"} |-> Name("no_equilibration", {"no_equilibration", "tipton", "user_defined"})] @@
    [w \in {"mat_equilibration_global_vars", "geo_equilibration_global_vars"} |-> List(2, 1000)],
    {})

Single == {"mesh", "dynamic", "output", "multi"}
Many == {"solvers", "bcs", "regions", "materials"}
SchemaOf(s) == CASE s = "mesh" -> MeshSchema [] s = "dynamic" -> DynamicSchema [] s = "output" -> OutputSchema [] s = "multi" -> MultiSchema
                 [] s = "solvers" -> SolverSchema [] s = "bcs" -> BcSchema [] s = "regions" -> RegionSchema [] s = "materials" -> MaterialSchema

(* Two words may name one setting.                                            *)
Key(w) == IF w \in {"surface.plane_position", "surface.radius"} THEN "surface.value" ELSE w
Pad(v) == IF Len(v) = 2 THEN v \o <<"0">> ELSE v

-------------------------------------------------------------------------------
(* Which decks are taken.                                                     *)
Has(e, w) == w \in DOMAIN e
Val(e, w) == e[w][1]
GoodValue(d, v) == CASE d.k = "name" -> v[1] \in d.opt
                     [] d.k = "names" -> \A i \in DOMAIN v : v[i] \in d.opt
                     [] d.k = "vec" -> Len(v) \in {2, 3}
                     [] d.k = "list" -> Len(v) \in d.min .. d.max
                     [] OTHER -> TRUE
GoodEntry(S, e) == /\ DOMAIN e \subseteq DOMAIN S
                   /\ \A w \in DOMAIN e : GoodValue(S[w], e[w])
                   /\ \A w \in DOMAIN S : S[w].req => Has(e, w)
Ids(n) == {ToString(i - 1) : i \in 1 .. n}
GoodIds(es, word) == LET n == Len(es) IN \A i \in 1 .. n : Val(es[i], word) \in Ids(n) /\ \A j \in 1 .. n : i # j => es[i][word] # es[j][word]

GoodMesh(e) == ~(Val(e, "source") = "generate" /\ Has(e, "file_path"))
GoodBc(e) == \E w \in {"surface.type", "surface.plane_position", "surface.radius", "surface.tolerance", "surface.origin"} : Has(e, w)
GoodRegion(e) == /\ \A f \in Fields \cup Graded \cup {"velocity"} : (\E w \in Below(f) : Has(e, w)) => Has(e, f \o ".type")
                 /\ (Val(e, "volume.type") = "voxel_file") = Has(e, "volume.file_path")
GoodMaterial(e, dims) ==
    /\ Has(e, "eos_global_vars") = (Has(e, "eos_model") /\ Val(e, "eos_model") # "no_eos")
    /\ Has(e, "dissipation_global_vars") = (Has(e, "dissipation_model") /\ Val(e, "dissipation_model") # "no_dissipation")
    /\ dims = "2" => /\ Has(e, "dissipation_model") => Val(e, "dissipation_model") \notin {"MARS", "directional_MARS"}
                     /\ Has(e, "strength_model") => Val(e, "strength_model") # "hypo_plasticity_strength"
    /\ dims = "3" => /\ Has(e, "dissipation_model") => Val(e, "dissipation_model") \notin {"MARS_rz", "directional_MARS_rz"}
                     /\ Has(e, "strength_model") => Val(e, "strength_model") # "hypo_plasticity_strength_rz"
FirstFields(rs) == {f \in GaussFields : Has(rs[1], f \o ".type")}

Taken(d) ==
    /\ \A s \in Single : GoodEntry(SchemaOf(s), d[s])
    /\ \A s \in Many : \A i \in DOMAIN d[s] : GoodEntry(SchemaOf(s), d[s][i])
    /\ d.materials # <<>>
    /\ GoodMesh(d.mesh)
    /\ GoodIds(d.solvers, "id") /\ GoodIds(d.materials, "id")
    /\ \A i \in DOMAIN d.solvers : Has(d.solvers[i], "time_end") => Val(d.solvers[i], "time_end") # "-1.5"   \* the negative one of the pool
    /\ \A i \in DOMAIN d.bcs : GoodBc(d.bcs[i]) /\ Val(d.bcs[i], "solver_id") \in Ids(Len(d.solvers))
    /\ \A i \in DOMAIN d.regions : GoodRegion(d.regions[i]) /\ (Has(d.regions[i], "solver_id") => Val(d.regions[i], "solver_id") \in Ids(Len(d.solvers)))
    /\ d.regions # <<>> => FirstFields(d.regions) # {}
    /\ \A i \in DOMAIN d.materials : GoodMaterial(d.materials[i], Val(d.mesh, "num_dims"))
(* Decks about which nothing is said: a mesh file that is not named, and a     *)
(* boundary surface with both a position and a radius.                         *)
Open(d) == \/ Has(d.mesh, "source") /\ Val(d.mesh, "source") = "file" /\ ~Has(d.mesh, "file_path")
           \/ \E i \in DOMAIN d.bcs : Has(d.bcs[i], "surface.plane_position") /\ Has(d.bcs[i], "surface.radius")

-------------------------------------------------------------------------------
(* The settings of a deck that is taken.                                      *)
EntrySettings(S, e) ==
    [k \in {Key(w) : w \in DOMAIN S} |->
        LET ws == {w \in DOMAIN e : Key(w) = k}
            d == S[CHOOSE w \in DOMAIN S : Key(w) = k]
        IN IF ws = {} THEN d.def
           ELSE LET v == e[CHOOSE w \in ws : TRUE] IN IF d.k = "vec" THEN Pad(v) ELSE v]
OutputSettings(e) ==
    LET s == EntrySettings(OutputSchema, e)
        f == s["elem_field_outputs"]
        In(x) == \E i \in DOMAIN f : f[i] = x
    IN [s EXCEPT !["elem_field_outputs"] = IF In("sie") /\ ~In("mass") THEN f \o <<"mass">> ELSE f]   \* energy is averaged by mass
ById(es, S) == [i \in 1 .. Len(es) |-> EntrySettings(S, es[CHOOSE j \in DOMAIN es : Val(es[j], "id") = ToString(i - 1)])]
RECURSIVE Pick(_, _, _)
Pick(es, P(_), i) == IF i > Len(es) THEN <<>> ELSE (IF P(es[i]) THEN <<ToString(i - 1)>> ELSE <<>>) \o Pick(es, P, i + 1)
PerSolver(d, es, word, P(_)) == [s \in 1 .. Len(d.solvers) |-> LET Q(e) == P(e) /\ Has(e, word) /\ Val(e, word) = ToString(s - 1) IN Pick(es, Q, 1)]
Last(es, P(_)) == LET is == {i \in DOMAIN es : P(es[i])} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
Model(e, w, names) == Has(e, w) /\ Val(e, w) \in names
Flag(b) == IF b THEN <<"true">> ELSE <<"false">>
BcSettings(e) ==
    LET s == EntrySettings(BcSchema, e)
    IN [s EXCEPT !["stress_model"] = IF @[1] \in {"global_contact", "preload_contact"} THEN Free ELSE @]   \* contact works on the whole boundary
Settings(d) ==
    LET vel(e) == Has(e, "velocity_model")
        tem(e) == Has(e, "temperature_model")
        str(e) == Has(e, "stress_model")
        con(e) == Model(e, "stress_model", {"global_contact", "preload_contact"})
        pre(e) == Model(e, "stress_model", {"preload_contact"})
        fra(e) == Model(e, "stress_model", {"fracture"})
        cv(e) == Has(e, "contact_bc_vars")
        all(e) == TRUE
        lastcv == Last(d.bcs, cv)
        Some(P(_)) == \E i \in DOMAIN d.bcs : P(d.bcs[i])
    IN [mesh |-> EntrySettings(MeshSchema, d.mesh),
        dynamic |-> EntrySettings(DynamicSchema, d.dynamic),
        output |-> OutputSettings(d.output),
        multi |-> EntrySettings(MultiSchema, d.multi),
        solvers |-> ById(d.solvers, SolverSchema),
        bcs |-> [i \in DOMAIN d.bcs |-> BcSettings(d.bcs[i])],
        regions |-> [i \in DOMAIN d.regions |-> EntrySettings(RegionSchema, d.regions[i])],
        materials |-> ById(d.materials, MaterialSchema),
        velocity_sets |-> PerSolver(d, d.bcs, "solver_id", vel),
        temperature_sets |-> PerSolver(d, d.bcs, "solver_id", tem),
        stress_sets |-> PerSolver(d, d.bcs, "solver_id", str),
        fills |-> PerSolver(d, d.regions, "solver_id", all),
        contact |-> Flag(Some(con)), preload |-> Flag(Some(pre)), fracture |-> Flag(Some(fra)),
        fracture_bc |-> <<IF Some(fra) THEN ToString(Last(d.bcs, fra) - 1) ELSE "-1">>,
        contact_bc_vars |-> IF lastcv = 0 THEN <<"500", "100">> ELSE d.bcs[lastcv]["contact_bc_vars"],
        gauss_fields |-> {f \in GaussFields : \E i \in DOMAIN d.regions : Has(d.regions[i], f \o ".type")},
        node_fields |-> {f \in NodeFields : \E i \in DOMAIN d.regions : Has(d.regions[i], f \o ".type")}]

(* Settings as observed agree with settings as asked for.                      *)
SameEntry(a, b) == \A k \in DOMAIN a : a[k] = Free \/ k = "contact_bc_vars" \/ (k \in DOMAIN b /\ a[k] = b[k])
SameList(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameEntry(a[i], b[i])
Same(a, b) == /\ \A k \in Single : SameEntry(a[k], b[k])
              /\ \A k \in Many : SameList(a[k], b[k])
              /\ \A k \in {"velocity_sets", "temperature_sets", "stress_sets", "fills", "contact", "preload", "fracture", "fracture_bc", "contact_bc_vars", "gauss_fields", "node_fields"} : a[k] = b[k]
Wrong(a, b) == {k \in Single : ~SameEntry(a[k], b[k])} \cup {k \in Many : ~SameList(a[k], b[k])}
               \cup {k \in {"velocity_sets", "temperature_sets", "stress_sets", "fills", "contact", "preload", "fracture", "fracture_bc", "contact_bc_vars", "gauss_fields", "node_fields"} : a[k] # b[k]}
=============================================================================
