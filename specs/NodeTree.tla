------------------------------ MODULE NodeTree ------------------------------
(***************************************************************************)
(* A YAML node tree as the value a user of the library sees: nothing, a    *)
(* leaf text, an ordered list of trees, or a key/value map of trees whose  *)
(* keys are unique and listed in order.                                    *)
(*                                                                         *)
(* The state is a set of independent root nodes; every action is one call  *)
(* of the public interface on the node found at a path below a root.       *)
(* A path is a sequence of steps, all of which exist (resolving a path     *)
(* changes nothing).                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Chars

\* ------------------------------------------------------------------ values
None      == [t |-> "n", v |-> "", k |-> <<>>, c |-> <<>>]
Leaf(s)   == [t |-> "s", v |-> s,  k |-> <<>>, c |-> <<>>]
List(cs)  == [t |-> "q", v |-> "", k |-> <<>>, c |-> cs]
Map(ks, cs) == [t |-> "m", v |-> "", k |-> ks, c |-> cs]

AsList(n) == IF n.t = "q" THEN n ELSE List(<<>>)
AsMap(n)  == IF n.t = "m" THEN n ELSE Map(<<>>, <<>>)

Size(n) == Len(n.c)

InsertAt0(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemoveAt0(s, i)    == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))

\* Position (1-based) of key k, 0 if absent.
KeyPos(n, k) == IF \E i \in 1..Len(n.k) : n.k[i] = k
                THEN CHOOSE i \in 1..Len(n.k) : n.k[i] = k ELSE 0

\* Number of keys that sort before k.
Before(n, k) == Cardinality({i \in 1..Len(n.k) : StrLess(n.k[i], k)})

SetKey(n, k, x) ==
    LET p == KeyPos(n, k) IN
    IF p > 0 THEN [n EXCEPT !.c[p] = x]
    ELSE LET b == Before(n, k) IN Map(InsertAt0(n.k, b, k), InsertAt0(n.c, b, x))

\* ------------------------------------------------- operations on one node
PushBack(n, x)  == LET q == AsList(n) IN List(Append(q.c, x))
PushFront(n, x) == LET q == AsList(n) IN List(<<x>> \o q.c)
Insert(n, i, x) == LET q == AsList(n) IN
                   List(InsertAt0(q.c, IF i > Len(q.c) THEN Len(q.c) ELSE i, x))
EraseIdx(n, i)  == IF n.t = "q" /\ i < Len(n.c) THEN List(RemoveAt0(n.c, i)) ELSE n
EraseKey(n, k)  == IF n.t = "m" /\ KeyPos(n, k) > 0
                   THEN LET p == KeyPos(n, k) - 1 IN Map(RemoveAt0(n.k, p), RemoveAt0(n.c, p))
                   ELSE n
PutKey(n, k, x) == SetKey(AsMap(n), k, x)
\* Reading an item: the node becomes a list (map) if it is not one already.
AtIdx(n, i)     == IF i < Len(AsList(n).c) THEN AsList(n).c[i + 1] ELSE None
TouchIdx(n)     == AsList(n)
AtKey(n, k)     == LET m == AsMap(n) IN IF KeyPos(m, k) > 0 THEN m.c[KeyPos(m, k)] ELSE None
TouchKey(n, k)  == LET m == AsMap(n) IN IF KeyPos(m, k) > 0 THEN m ELSE SetKey(m, k, None)
SetItem(n, i, x) == IF i < Len(n.c) THEN [n EXCEPT !.c[i + 1] = x] ELSE n

\* ------------------------------------------------------------------- paths
\* A step is the 0-based position of the child in iteration order.
RECURSIVE Get(_, _)
Get(n, p) == IF p = <<>> THEN n ELSE Get(n.c[Head(p) + 1], Tail(p))

RECURSIVE Put(_, _, _)
Put(n, p, x) == IF p = <<>> THEN x
                ELSE [n EXCEPT !.c[Head(p) + 1] = Put(@, Tail(p), x)]

RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup UNION {{<<i - 1>> \o p : p \in Paths(n.c[i])} : i \in 1..Len(n.c)}

RECURSIVE Nodes(_)
RECURSIVE NodesSum(_, _)
NodesSum(cs, i) == IF i > Len(cs) THEN 0 ELSE Nodes(cs[i]) + NodesSum(cs, i + 1)
Nodes(n) == 1 + NodesSum(n.c, 1)

\* ------------------------------------------- one call on a set of roots R
\* e.op, e.r (root), e.p (path), and per operation e.i, e.k, e.v (a text),
\* e.r2, e.p2 (source of a copy).  Result: the new roots.
Upd(R, e, x) == [R EXCEPT ![e.r] = Put(@, e.p, x)]

Apply(R, e) ==
    LET n == Get(R[e.r], e.p) IN
    CASE e.op = "reset"     -> [r \in DOMAIN R |-> None]
      [] e.op = "set"       -> Upd(R, e, Leaf(e.v))
      [] e.op = "pushback"  -> Upd(R, e, PushBack(n, Leaf(e.v)))
      [] e.op = "pushfront" -> Upd(R, e, PushFront(n, Leaf(e.v)))
      [] e.op = "insert"    -> Upd(R, e, Insert(n, e.i, Leaf(e.v)))
      [] e.op = "pushnone"  -> Upd(R, e, PushBack(n, None))
      [] e.op = "eraseidx"  -> Upd(R, e, EraseIdx(n, e.i))
      [] e.op = "erasekey"  -> Upd(R, e, EraseKey(n, e.k))
      [] e.op = "putkey"    -> Upd(R, e, PutKey(n, e.k, Leaf(e.v)))
      [] e.op = "getkey"    -> Upd(R, e, TouchKey(n, e.k))
      [] e.op = "getidx"    -> Upd(R, e, TouchIdx(n))
      [] e.op = "setitem"   -> Upd(R, e, SetItem(n, e.i, Leaf(e.v)))
      [] e.op = "clear"     -> Upd(R, e, None)
      [] e.op = "assign"    -> Upd(R, e, Get(R[e.r2], e.p2))
      [] e.op = "copy"      -> [R EXCEPT ![e.r] = Get(R[e.r2], e.p2)]
      [] e.op = "putcopy"   -> Upd(R, e, PutKey(n, e.k, Get(R[e.r2], e.p2)))
      [] e.op = "read"      -> R

\* What the call shows to its caller.
Result(R, e) ==
    LET n == Get(R[e.r], e.p) IN
    CASE e.op = "getkey" -> AtKey(n, e.k)
      [] e.op = "getidx" -> AtIdx(n, e.i)
      [] e.op = "read"   -> n
      [] OTHER           -> None

\* -------------------------------------------------------------- invariants
RECURSIVE WellFormed(_)
WellFormed(n) ==
    /\ n.t \in {"n", "s", "q", "m"}
    /\ n.t \in {"n", "s"} => n.c = <<>>
    /\ n.t # "s" => n.v = ""
    /\ IF n.t = "m" THEN Len(n.k) = Len(n.c) ELSE n.k = <<>>
    /\ \A i \in 1..(Len(n.k) - 1) : StrLess(n.k[i], n.k[i + 1])
    /\ \A i \in 1..Len(n.c) : WellFormed(n.c[i])
=============================================================================
