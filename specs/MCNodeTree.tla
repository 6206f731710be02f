----------------------------- MODULE MCNodeTree -----------------------------
(* Exhaustive exploration of NodeTree within small constants. *)
EXTENDS NodeTree
CONSTANTS RootNames, Keys, Texts, MaxNodes

VARIABLES R, last
vars == <<R, last>>

NoOp == [op |-> "init", r |-> "", p |-> <<>>, i |-> 0, k |-> "", v |-> "", r2 |-> "", p2 |-> <<>>]

Calls == {"set", "pushback", "pushfront", "insert", "pushnone", "eraseidx", "erasekey",
          "putkey", "getkey", "getidx", "setitem", "clear", "assign", "copy", "putcopy"}

Init == R = [r \in RootNames |-> None] /\ last = NoOp

Do(op) ==
    \E r \in RootNames : \E p \in Paths(R[r]) :
    \E i \in (IF op \in {"insert", "eraseidx", "getidx", "setitem"} THEN 0..2 ELSE {0}) :
    \E k \in (IF op \in {"erasekey", "putkey", "getkey", "putcopy"} THEN Keys ELSE {""}) :
    \E v \in (IF op \in {"set", "pushback", "pushfront", "insert", "putkey", "setitem"} THEN Texts ELSE {""}) :
    \E r2 \in (IF op \in {"assign", "copy", "putcopy"} THEN RootNames ELSE {r}) :
    \E p2 \in (IF op \in {"assign", "copy", "putcopy"} THEN Paths(R[r2]) ELSE {<<>>}) :
       LET e == [op |-> op, r |-> r, p |-> p, i |-> i, k |-> k, v |-> v, r2 |-> r2, p2 |-> p2] IN
       /\ R' = Apply(R, e)
       /\ last' = e

Next == \E op \in Calls : Do(op)
Spec == Init /\ [][Next]_vars

Small == \A r \in RootNames : Nodes(R[r]) <= MaxNodes
View == R

TypeOK == \A r \in RootNames : WellFormed(R[r])

\* A call changes no root but the one it is made on: copies are independent.
Isolation == [][\A r \in RootNames : r # last'.r => R'[r] = R[r]]_vars

\* A copy equals its original as it was before the call.
CopyEqual == [][last'.op \in {"assign", "copy"} =>
                  Get(R'[last'.r], IF last'.op = "copy" THEN <<>> ELSE last'.p) = Get(R[last'.r2], last'.p2)]_vars

\* List calls move the other items without losing, repeating or reordering any.
Laws == [][LET e == last' IN LET a == Get(R[e.r], e.p) IN
    /\ e.op = "insert" =>
          LET b == Get(R'[e.r], e.p) IN LET j == IF e.i > Size(AsList(a)) THEN Size(AsList(a)) ELSE e.i IN
          /\ Size(b) = Size(AsList(a)) + 1
          /\ b.c[j + 1] = Leaf(e.v)
          /\ RemoveAt0(b.c, j) = AsList(a).c
    /\ (e.op = "eraseidx" /\ a.t = "q" /\ e.i < Size(a)) =>
          LET b == Get(R'[e.r], e.p) IN
          /\ Size(b) = Size(a) - 1
          /\ InsertAt0(b.c, e.i, a.c[e.i + 1]) = a.c
    /\ e.op = "putkey" =>
          LET b == Get(R'[e.r], e.p) IN
          /\ AtKey(b, e.k) = Leaf(e.v)
          /\ \A k \in Keys \ {e.k} : AtKey(b, k) = AtKey(a, k)]_vars
=============================================================================
