------------------------------ MODULE TraceDeck -------------------------------
(* Checks decks read by the real parser: a deck is taken or refused as         *)
(* specified, and the settings of a deck that is taken are those asked for.    *)
EXTENDS Deck, Json, IOUtils
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Fun(ps) == [w \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = w][2]]
ToDeck(d) == [s \in Single |-> Fun(d[s])] @@ [s \in Many |-> [i \in DOMAIN d[s] |-> Fun(d[s][i])]]
Set(s) == {s[i] : i \in DOMAIN s}
Seen(g) == [k \in DOMAIN g |-> IF k \in {"gauss_fields", "node_fields"} THEN Set(g[k]) ELSE IF k = "bcs" THEN [i \in DOMAIN g.bcs |-> g.bcs[i] @@ [solver_id |-> Free]] ELSE g[k]]
WithoutSolver(t) == [t EXCEPT !.bcs = [i \in DOMAIN t.bcs |-> [t.bcs[i] EXCEPT !["solver_id"] = Free]]]   \* shown by the sets of the solver
Ok(e, d) == IF Taken(d) THEN e.how = "ok" /\ Same(WithoutSolver(Settings(d)), Seen(e.got)) ELSE e.how = "refused"
Allowed(e, d) == IF ~Taken(d) THEN "the deck to be refused"
                 ELSE IF e.how # "ok" THEN "the deck to be taken"
                 ELSE LET a == WithoutSolver(Settings(d)) IN "other settings of " \o ToJson([k \in Wrong(a, Seen(e.got)) |-> a[k]])
Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET e == Log[l]
               d == ToDeck(e.deck)
           IN IF Ok(e, d) THEN TRUE ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o Allowed(e, d)) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
