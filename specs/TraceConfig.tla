---------------------------- MODULE TraceConfig -------------------------------
(* Checks recorded loads and stores of real configuration objects.          *)
EXTENDS ConfigText, Integers, Json, IOUtils
VARIABLE l

Log == ndJsonDeserialize(IOEnv.TRACE)
Types == JsonDeserialize(IOEnv.TYPES)

TypesOf(e) == [i \in 1..Len(e.ty) |-> Types[e.ty[i]]]
ExpectLoad(e) ==
    LET r == Doc(TypesOf(e), e.before, e.in, e.strict) IN
    [ok |-> r.ok, what |-> IF r.ok THEN "" ELSE Message(r), path |-> IF r.ok THEN "" ELSE Join(r.path, "."),
     log |-> r.log, after |-> IF r.ok THEN r.v ELSE <<>>]
Defaults(tys) == [i \in 1..Len(tys) |-> Default(tys[i])]
ExpectStore(e) ==
    LET tys == TypesOf(e)
        n == StoreAll(tys, e.vals, 1, None)
        d == Document(n)
        r == LoadAll(tys, Defaults(tys), d, 1, FALSE)
        all == \A i \in 1..Len(tys) : ReturnsAlone(tys[i], e.vals[i]) IN
    [node |-> n, same |-> TRUE, tree |-> d, ok |-> r.ok, what |-> IF r.ok THEN "" ELSE Message(r),
     again |-> IF ~r.ok THEN <<>> ELSE IF Len(tys) = 1 /\ all THEN e.vals ELSE r.v]
\* An enumeration: the name of the i-th value (none: no text, and a node is left
\* alone), and the value of a name (a stream reads one word).
ExpectName(e) ==
    LET ty == Types[e.ty[1]]
        s == IF e.i >= 0 /\ e.i < Len(ty.k) THEN ty.k[e.i + 1] ELSE "" IN
    [str |-> s, stream |-> s, node |-> Text(IF s = "" THEN "old" ELSE s)]
Word(s) == LET a == FindOut(s, White, 1)
               t == IF a = 0 THEN "" ELSE From(s, a)
               b == FindIn(t, White, 1) IN IF b = 0 THEN t ELSE Upto(t, b - 1)
ExpectNamed(e) ==
    LET r == Load(Types[e.ty[1]], e.before, Text(IF e.form = "stream" THEN Word(e.text) ELSE e.text), FALSE) IN
    [ok |-> r.ok, what |-> r.msg, after |-> r.v]
Expected(e) == CASE e.op = "load" -> ExpectLoad(e) [] e.op = "store" -> ExpectStore(e) [] e.op = "name" -> ExpectName(e) [] e.op = "named" -> ExpectNamed(e)
Observed(e) ==
    IF e.op = "name" THEN [str |-> e.str, stream |-> e.stream, node |-> e.node]
    ELSE IF e.op = "named" THEN [ok |-> e.ok, what |-> e.what, after |-> e.after]
    ELSE IF e.op = "load" THEN [ok |-> e.ok, what |-> e.what, path |-> e.path, log |-> e.log, after |-> e.after]
    ELSE [node |-> e.node, same |-> e.same, tree |-> e.tree, ok |-> e.ok, what |-> e.what, again |-> IF e.ok THEN e.again ELSE <<>>]
Judged(e) == e.op # "store" \/ Plain(e.node)

Init == l = 1 /\ TLCSet(1, 0)
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN
       IF ~Judged(e) THEN TRUE
       ELSE IF Observed(e) = Expected(e) THEN TLCSet(1, TLCGet(1) + 1)
       ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(Expected(e))) /\ FALSE
    /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT("USED " \o ToString(TLCGet(1))) /\ TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
