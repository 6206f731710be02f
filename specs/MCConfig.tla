------------------------------ MODULE MCConfig --------------------------------
(***************************************************************************)
(* The typed layer on small types: every document of depth two is loaded   *)
(* into every type, every small value is stored and read back.             *)
(***************************************************************************)
EXTENDS ConfigText
CONSTANTS Deep, Schemas
VARIABLES ty, kind, x     \* kind: "type" (x: None), "doc" (x: a document), "val" (x: a value)

I == [t |-> "i"]   B == [t |-> "b"]   T == [t |-> "s"]
E == [t |-> "e", k |-> <<"1", "b">>]
Q(c) == [t |-> "q", c |-> <<c>>]   U(c) == [t |-> "u", c |-> <<c>>]
O(c) == [t |-> "o", c |-> <<c>>]   P(c) == [t |-> "p", c |-> <<c>>]
A2(c) == [t |-> "a", n |-> 2, c |-> <<c>>]
S(n, base, k, c, req, der, vali, max) ==
    LET y == [t |-> "S", n |-> n, base |-> base, k |-> k, c |-> c, req |-> req, derive |-> der, validate |-> vali, max |-> max, vf |-> ""] IN
    y @@ [dv |-> Val("S", n, [i \in 1..Len(base) |-> base[i].dv] \o [i \in 1..Len(c) |-> Default(c[i])])]
S1 == S("S1", <<>>, <<"a", "b">>, <<I, O(T)>>, <<>>, TRUE, TRUE, "1")
S2 == S("S2", <<>>, <<"a", "b">>, <<Q(I), E>>, <<"a">>, FALSE, FALSE, "")
S3 == S("S3", <<S1>>, <<"z", "type">>, <<T, B>>, <<>>, TRUE, FALSE, "")
S4 == S("S4", <<>>, <<"a", "b">>, <<S1, Q(S3)>>, <<>>, FALSE, TRUE, "")
K == S("K", <<>>, <<"type", "a">>, <<E, I>>, <<>>, FALSE, FALSE, "")
KX == S("KX", <<K>>, <<"b">>, <<O(I)>>, <<>>, TRUE, FALSE, "")
KY == S("KY", <<K>>, <<"c">>, <<Q(E)>>, <<"a">>, FALSE, TRUE, "")
D1 == [t |-> "D", c |-> <<K>>, r |-> <<[v |-> "b", ty |-> KX]>>]
AllSchemas == {I, B, T, E, Q(I), Q(Q(T)), U(E), U(I), A2(I), O(I), O(Q(E)), P(S1), Q(O(I)), A2(O(E)), S1, S2, S3, S4, D1, Q(D1), P(Q(S1)), O(A2(B))}
ListSchemas == {E, Q(E), U(E), A2(E), A2(I), Q(A2(I)), A2(A2(B)), O(A2(E)), A2(Q(I)), A2(O(E)), S2}
D2 == [t |-> "D", c |-> <<K>>, r |-> <<[v |-> "1", ty |-> KX], [v |-> "b", ty |-> KY]>>]
S5 == S("S5", <<>>, <<"a", "b">>, <<D1, O(D1)>>, <<>>, TRUE, FALSE, "")
ChosenSchemas == {D1, D2, Q(D1), O(D1), P(S5), S5, A2(D1), K, KX, KY}
HookSchemas == {S1, S3, S4, P(S1), Q(S1), O(S3), A2(S1), D1, Q(D1), P(Q(S1)), S5, KX, KY}

RECURSIVE SetToSeq1(_)
SetToSeq1(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE e \in s : TRUE IN <<e>> \o SetToSeq1(s \ {e})
RECURSIVE Tuples(_, _)
Tuples(ss, n) == IF n = 0 THEN {<<>>} ELSE {Append(f, v) : f \in Tuples(ss, n - 1), v \in ss[n]}

\* ---------------------------------------------------------------- documents
Texts == IF Deep THEN {"1", "b", "", "[]", "[1, b]", "[1,1]", "x: y"} ELSE {"1", "b", "[1, b]"}
Keys == IF Deep THEN {"a", "b", "type", "z"} ELSE {"a", "b", "z"}
Docs0 == {None} \cup {Text(s) : s \in Texts}
Lists(X, n) == UNION {{ListNode(f) : f \in [1..m -> X]} : m \in 1..n}
Maps(X, ks) == UNION {LET o == SortTexts(SetToSeq1(s)) IN {MapNode(o, f) : f \in [1..Len(o) -> X]} : s \in SUBSET ks \ {{}}}
Docs1 == Docs0 \cup Lists(Docs0, 2) \cup Maps(Docs0, Keys)
Docs2 == Docs1 \cup Lists(Docs1, 1) \cup Maps(Docs1, {"a"}) \cup Maps(Docs1, {"b"})

\* ------------------------------------------------------------------- values
RECURSIVE Values(_, _)
Values(y, n) ==
    CASE y.t = "i" -> {Val("i", s, <<>>) : s \in {"0", "-7"}}
      [] y.t = "b" -> {Val("b", s, <<>>) : s \in {"True", "False"}}
      [] y.t = "s" -> {Val("s", s, <<>>) : s \in (IF n > 1 THEN {"", "[1]", "two\nlines", "x: y", " - "} ELSE {"", "a b"})}
      [] y.t = "e" -> {Val("e", y.k[i], <<>>) : i \in 1..Len(y.k)}
      [] y.t \in {"q", "u"} -> {Val(y.t, "", IF y.t = "u" THEN SetOf(y.c[1], f, Len(f)) ELSE f) : f \in UNION {[1..m -> Values(y.c[1], n - 1)] : m \in 0..2}}
      [] y.t = "a" -> {Val("a", "", f) : f \in [1..y.n -> Values(y.c[1], n - 1)]}
      [] y.t \in {"o", "p"} -> {Absent} \cup {Val(y.t, "", <<v>>) : v \in Values(y.c[1], n)}
      [] y.t = "S" -> LET nb == Len(y.base)
                          F(i) == IF i <= nb THEN Values(y.base[i], n - 1) ELSE Values(y.c[i - nb], n - 1)
                          two == [i \in 1..(nb + Len(y.c)) |-> F(i)] IN
                      {Val("S", y.n, f) : f \in Tuples(two, Len(two))}
      [] y.t = "D" -> {Absent} \cup UNION {{Val("p", "", <<[v EXCEPT !.c[1].c[1].v = y.r[i].v]>>) : v \in Values(y.r[i].ty, n)} : i \in 1..Len(y.r)}

\* ------------------------------------------------------------------ exploring
Init == ty \in Schemas /\ kind = "type" /\ x = None
Next == /\ kind = "type" /\ ty' = ty
        /\ \/ kind' = "doc" /\ x' \in Docs2
           \/ kind' = "val" /\ x' \in Values(ty, 3)
Spec == Init /\ [][Next]_<<ty, kind, x>>

\* ----------------------------------------------------------------- properties
Cfg == [ind |-> 2, max |-> 64, seqnl |-> FALSE, mapnl |-> FALSE]
RoundTrips ==
    kind = "val" =>
        LET n == Store(ty, x, None)
            d == Document(n)
            w == W!Read(W!Write(n, Cfg)) IN
        /\ w.ok /\ w.tree = d
        /\ ReturnsAlone(ty, x) => LET r == Load(ty, Default(ty), d, FALSE) IN r.ok /\ r.v = x
        /\ ReturnsAlone(ty, x) => LET r == LoadStrict(<<ty>>, <<Default(ty)>>, d) IN r.ok
\* A document without an entry leaves it as it was; loading twice is loading once.
Keeps ==
    /\ kind = "val" /\ ty.t \notin {"p", "D"} /\ (ty.t = "S" => ty.req = <<>> /\ ty.max = "") => Load(ty, x, None, FALSE).v = x
    /\ kind = "doc" => LET r == Load(ty, Default(ty), x, FALSE) IN
        r.ok => LET r2 == Load(ty, r.v, x, FALSE) IN r2.ok /\ r2.v = r.v
StrictMeansAllUsed ==
    kind = "doc" =>
        LET r == Load(ty, Default(ty), x, FALSE)
            s == LoadStrict(<<ty>>, <<Default(ty)>>, x) IN
        /\ s.ok <=> (r.ok /\ Used(ty, x))
        /\ s.ok => s.v = <<r.v>> /\ s.log = r.log
\* Two objects: the order does not matter, and each gets what it would get alone.
TwoObjects ==
    kind = "doc" => \A u \in {S1, S3, K} :
        LET a == LoadAll(<<ty, u>>, <<Default(ty), Default(u)>>, x, 1, FALSE)
            b == LoadAll(<<u, ty>>, <<Default(u), Default(ty)>>, x, 1, FALSE) IN
        /\ a.ok <=> b.ok
        /\ a.ok => a.v = <<b.v[2], b.v[1]>> /\ a.v[1] = Load(ty, Default(ty), x, FALSE).v
\* Hooks: one call per object that has the hook, of the base before the
\* derived class, of the parts before the whole, derive before validate.
RECURSIVE HooksOf(_, _, _)
HooksOf(y, v, n) ==     \* the calls due for v, loaded from n
    CASE v.t = "0" -> <<>>
      [] y.t \in {"i", "d", "b", "s", "e"} -> <<>>
      [] IsNone(n) /\ y.t \notin {"p", "S", "D"} -> <<>>
      [] y.t \in {"q", "a"} -> LET c == AsList(n).c
                          F[i \in 0..Len(c)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o HooksOf(y.c[1], v.c[i], c[i]) IN F[Len(c)]
      [] y.t \in {"o", "p"} -> HooksOf(y.c[1], v.c[1], n)
      [] y.t = "S" -> LET nb == Len(y.base)
                          b == IF nb = 0 THEN <<>> ELSE HooksOf(y.base[1], v.c[1], n)
                          F[i \in 0..Len(y.k)] == IF i = 0 THEN b ELSE F[i - 1] \o (IF IsNone(Child(n, y.k[i])) THEN <<>> ELSE HooksOf(y.c[i], v.c[nb + i], Child(n, y.k[i]))) IN
                      F[Len(y.k)] \o (IF y.derive THEN <<[h |-> "derive", n |-> y.n]>> ELSE <<>>) \o (IF y.validate THEN <<[h |-> "validate", n |-> y.n]>> ELSE <<>>)
      [] y.t = "D" -> LET i == CHOOSE i \in 1..Len(y.r) : y.r[i].ty.n = v.c[1].v IN HooksOf(y.r[i].ty, v.c[1], n)
      [] OTHER -> <<>>
HooksOnce ==
    kind = "doc" =>
        LET r == Load(ty, Default(ty), x, FALSE) IN
        r.ok => [i \in 1..Len(r.log) |-> [h |-> r.log[i].h, n |-> r.log[i].n]] = HooksOf(ty, r.v, x)
\* A raw load runs no hooks and reads the same.
RawQuiet ==
    kind = "doc" => LET r == Load(ty, Default(ty), x, FALSE)
                        w == Load(ty, Default(ty), x, TRUE) IN w.log = <<>> /\ (r.ok => w.ok /\ w.v = r.v)
=============================================================================
