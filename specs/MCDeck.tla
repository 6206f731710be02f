-------------------------------- MODULE MCDeck --------------------------------
(* Editing a deck, one word at a time: from a deck that is taken, any word of  *)
(* any section is set, removed or misspelled, and entries are added or dropped.*)
(* A deck that is refused is repaired by undoing the edit.                     *)
EXTENDS Deck, Json
CONSTANTS Depth, Emit
VARIABLES deck, before, edit, n
vars == <<deck, before, edit, n>>

E0 == <<>>   \* the empty section
Solver(i) == "method" :> <<"dynx_FE">> @@ "id" :> <<ToString(i)>>
Bc == "solver_id" :> <<"0">> @@ "surface.type" :> <<"x_plane">> @@ "velocity_model" :> <<"reflected">>
Region == "material_id" :> <<"0">> @@ "volume.type" :> <<"global">> @@ "density.type" :> <<"uniform">> @@ "density.value" :> <<"2">>
Material(i) == "id" :> <<ToString(i)>> @@ "eos_model" :> <<"gamma_law_gas">> @@ "eos_model_type" :> <<"decoupled">> @@ "eos_global_vars" :> <<"1.4", "0.001">>
Base == [mesh |-> "source" :> <<"generate">> @@ "num_dims" :> <<"3">>,
         dynamic |-> "time_final" :> <<"0.5">> @@ "cycle_stop" :> <<"100">>,
         output |-> E0, multi |-> E0,
         solvers |-> <<Solver(0)>>, bcs |-> <<Bc>>, regions |-> <<Region>>, materials |-> <<Material(0)>>]
Rich == [mesh |-> "source" :> <<"file">> @@ "file_path" :> <<"a.geo">> @@ "num_dims" :> <<"2">> @@ "type" :> <<"box">> @@ "scale_y" :> <<"0.25">>,
         dynamic |-> "time_final" :> <<"0.5">> @@ "cycle_stop" :> <<"100">> @@ "dt_min" :> <<"0.25">>,
         output |-> "elem_field_outputs" :> <<"sie", "den">> @@ "output_file_format" :> <<"ensight">>,
         multi |-> "max_num_mats_per_element" :> <<"2">> @@ "mat_equilibration_model" :> <<"tipton">> @@ "mat_equilibration_global_vars" :> <<"1", "2.5">>,
         solvers |-> <<Solver(1), Solver(0)>>,
         bcs |-> <<Bc, [Bc EXCEPT !["solver_id"] = <<"1">>] @@ "stress_model" :> <<"fracture">> @@ "velocity_bc_global_vars" :> <<"1", "2">>,
                   "solver_id" :> <<"1">> @@ "surface.radius" :> <<"3">> @@ "temperature_model" :> <<"constant">> @@ "temperature_bc_global_vars" :> <<"7">>>>,
         regions |-> <<Region @@ "solver_id" :> <<"1">>, Region @@ "solver_id" :> <<"0">> @@ "velocity.type" :> <<"cartesian">> @@ "velocity.u" :> <<"3">>,
                       Region @@ "solver_id" :> <<"1">> @@ "volume_fraction.type" :> <<"x_linear">> @@ "volume_fraction.slope" :> <<"0.5">>>>,
         materials |-> <<Material(1), Material(0) @@ "dissipation_model" :> <<"MARS_rz">> @@ "dissipation_global_vars" :> <<"1", "0", "1", "1.333", "1", "1">>>>]

Put(s, i, e) == IF s \in Single THEN [deck EXCEPT ![s] = e] ELSE [deck EXCEPT ![s][i] = e]
Get(s, i) == IF s \in Single THEN deck[s] ELSE deck[s][i]
Places == {<<s, 1>> : s \in Single} \cup UNION {{<<s, i>> : i \in DOMAIN deck[s]} : s \in Many}
Misspelled == {"densty", "Id"}
Without(e, w) == [x \in DOMAIN e \ {w} |-> e[x]]
Change(s, i, w, v) ==
    LET e == Get(s, i)
        f == IF v = <<>> THEN Without(e, w) ELSE (w :> v) @@ Without(e, w)
    IN /\ f # e
       /\ deck' = Put(s, i, f) /\ edit' = [s |-> s, i |-> i, w |-> w]
Choices(s, w) == IF w \in Misspelled THEN {<<"1">>} ELSE SchemaOf(s)[w].pool \cup {<<>>}
Grow(s) == /\ Len(deck[s]) < 3
           /\ deck' = [deck EXCEPT ![s] = Append(@, CASE s = "solvers" -> Solver(Len(@)) [] s = "bcs" -> Bc [] s = "regions" -> Region [] s = "materials" -> Material(Len(@)))]
           /\ edit' = [s |-> s, i |-> 0, w |-> ""]
Shrink(s) == /\ Len(deck[s]) > (IF s = "solvers" THEN 1 ELSE 0)
             /\ deck' = [deck EXCEPT ![s] = SubSeq(@, 1, Len(@) - 1)] /\ edit' = [s |-> s, i |-> 0, w |-> ""]

Init == deck \in {Base, Rich} /\ before = deck /\ edit = [s |-> "", i |-> 0, w |-> ""] /\ n = 0
        /\ IF Emit THEN PrintT("CASE " \o ToJson(deck)) ELSE TRUE
Show == IF Emit /\ ~Open(deck') THEN PrintT("CASE " \o ToJson(deck')) ELSE TRUE
Edit == /\ n < Depth /\ Taken(deck)
        /\ n' = n + 1 /\ before' = deck
        /\ \/ \E p \in Places : \E w \in DOMAIN SchemaOf(p[1]) \cup Misspelled : \E v \in Choices(p[1], w) : Change(p[1], p[2], w, v)
           \/ \E s \in Many : Grow(s) \/ Shrink(s)
        /\ Show
Next == Edit
Spec == Init /\ [][Next]_vars

(* Long random histories, with undo.                                          *)
Undo == ~Taken(deck) /\ deck' = before /\ UNCHANGED <<before>> /\ edit' = [s |-> "", i |-> 0, w |-> ""] /\ n' = n + 1
RandomEdit ==
    /\ Taken(deck) /\ n' = n + 1 /\ before' = deck
    /\ \E r \in {RandomElement(1 .. 12)} :
         IF r = 1 THEN \E s \in {RandomElement(Many)} : IF Len(deck[s]) < 3 THEN Grow(s) ELSE Shrink(s)
         ELSE IF r = 2 THEN \E s \in {RandomElement(Many)} : IF Len(deck[s]) > 1 THEN Shrink(s) ELSE Grow(s)
         ELSE \E p \in {RandomElement(Places)} : \E w \in {RandomElement(DOMAIN SchemaOf(p[1]) \cup (IF r = 3 THEN Misspelled ELSE {}))} :
              \E v \in {RandomElement(Choices(p[1], w))} :
                 IF v = <<>> /\ w \notin DOMAIN Get(p[1], p[2]) THEN UNCHANGED deck /\ edit' = edit ELSE
                 LET e == Get(p[1], p[2])
                     f == IF v = <<>> THEN Without(e, w) ELSE (w :> v) @@ Without(e, w)
                 IN deck' = Put(p[1], p[2], f) /\ edit' = [s |-> p[1], i |-> p[2], w |-> w]
    /\ Show
SimSpec == Init /\ [][IF Taken(deck) THEN RandomEdit ELSE Undo]_vars

-------------------------------------------------------------------------------
TypeOK == Taken(Base) /\ Taken(Rich)
(* A word no section knows is never let through.                              *)
NoUnknown == Taken(deck) => /\ \A s \in Single : DOMAIN deck[s] \subseteq DOMAIN SchemaOf(s)
                            /\ \A s \in Many : \A i \in DOMAIN deck[s] : DOMAIN deck[s][i] \subseteq DOMAIN SchemaOf(s)
(* What is asked for is what is set: every word of a deck that is taken is the *)
(* setting of its name.                                                        *)
AsWritten == Taken(deck) /\ ~Open(deck) =>
    LET t == Settings(deck)
        Written(S, e, f) == \A w \in DOMAIN e : f[Key(w)] = Free \/ (S[w].k = "names" /\ SubSeq(f[Key(w)], 1, Len(e[w])) = e[w]) \/ f[Key(w)] = (IF S[w].k = "vec" THEN Pad(e[w]) ELSE e[w])
    IN /\ \A s \in Single : Written(SchemaOf(s), deck[s], t[s])
       /\ \A s \in {"bcs", "regions"} : \A i \in DOMAIN deck[s] : Written(SchemaOf(s), deck[s][i], t[s][i])
(* An edit changes only the setting it names, or whether the deck is taken.    *)
Owned(s, w) == CASE s = "bcs" -> {"bcs", "velocity_sets", "temperature_sets", "stress_sets", "contact", "preload", "fracture", "fracture_bc", "contact_bc_vars"}
                 [] s = "regions" -> {"regions", "fills", "gauss_fields", "node_fields"}
                 [] s = "solvers" -> {"solvers", "velocity_sets", "temperature_sets", "stress_sets", "fills"}
                 [] OTHER -> {s}
Local == [][(Taken(deck) /\ Taken(deck') /\ edit'.s # "") =>
              LET a == Settings(deck)
                  b == Settings(deck')
                  x == edit'
              IN /\ \A k \in DOMAIN a \ Owned(x.s, x.w) : a[k] = b[k]
                 /\ x.i > 0 /\ x.s \in {"bcs", "regions"} =>
                      \A i \in DOMAIN a[x.s] : \A k \in DOMAIN a[x.s][i] : a[x.s][i][k] # b[x.s][i][k] => i = x.i /\ k = Key(x.w)
                 /\ x.s \in Single => \A k \in DOMAIN a[x.s] : a[x.s][k] # b[x.s][k] => k = Key(x.w)]_vars
=============================================================================
