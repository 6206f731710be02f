----------------------------- MODULE ConfigText -------------------------------
(***************************************************************************)
(* What a stored configuration is as a document, and which values come     *)
(* back from it.                                                           *)
(***************************************************************************)
EXTENDS Config
W == INSTANCE YamlWrite

\* Entries that hold nothing are left out; a list or map without entries is
\* written as an empty text.
RECURSIVE Written(_)
Written(n) ==
    IF n.t \notin {"q", "m"} THEN n ELSE
    LET keep == SelectSeq([i \in 1..Len(n.c) |-> i], LAMBDA i : n.c[i].t # "n")
        cs == [j \in 1..Len(keep) |-> Written(n.c[keep[j]])] IN
    IF keep = <<>> THEN Text("")
    ELSE IF n.t = "q" THEN ListNode(cs)
    ELSE MapNode([j \in 1..Len(keep) |-> n.k[keep[j]]], cs)
Document(n) == LET w == Written(n) IN IF w = Text("") THEN None ELSE w

RECURSIVE Plain(_)      \* all its texts are of the kind a document can hold
Plain(n) == /\ n.t = "s" => W!Storable(n.v)
            /\ \A i \in 1..Len(n.c) : Plain(n.c[i])

\* Values whose text determines them: items of lists are not absent, and a
\* present pointer or optional holds something.
Solid(v) == v.t # "0"
RECURSIVE Returns(_, _)
Returns(ty, v) ==
    CASE v.t = "0" -> ty.t = "o"
      [] ty.t \in {"q", "u", "a"} -> \A i \in 1..Len(v.c) : Store(ty.c[1], v.c[i], None) # None /\ Returns(ty.c[1], v.c[i])
      [] ty.t \in {"o", "p"} -> Store(ty.c[1], v.c[1], None) # None /\ Returns(ty.c[1], v.c[1])
      [] ty.t = "S" -> /\ ty.max # "" => ~IntLess(ty.max, v.c[Len(ty.base) + KeyPos(ty.k, "a", 1)].v)
                       /\ \A i \in 1..Len(ty.base) : Returns(ty.base[i], v.c[i])
                       /\ \A i \in 1..Len(ty.k) : v.c[Len(ty.base) + i].t = "0" \/ Returns(ty.c[i], v.c[Len(ty.base) + i])
      [] ty.t = "D" -> LET i == CHOOSE i \in 1..Len(ty.r) : ty.r[i].ty.n = v.c[1].v IN Returns(ty.r[i].ty, v.c[1])
      [] OTHER -> TRUE
\* As a whole document: an empty document is no value.
ReturnsAlone(ty, v) == Returns(ty, v) /\ (Document(Store(ty, v, None)) = None => v = Default(ty))
=============================================================================
