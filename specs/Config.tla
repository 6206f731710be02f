------------------------------- MODULE Config ---------------------------------
(***************************************************************************)
(* Typed loading and storing of configurations.                            *)
(*                                                                         *)
(* A type is a record [t, n, k, c, ...]:                                   *)
(*   i int   d real   b bool   s text   e enumeration (k: its names)       *)
(*   q vector, u set, o optional, p pointer   (c[1]: item type)            *)
(*   a fixed-length array                     (n: its length)              *)
(*   S structure: n name, k field names, c field types, base <<type>> or   *)
(*     <<>>, dv default value, vf: field its validate blames ("": none),  *)
(*     req required names, derive/validate: has a hook of its own,   *)
(*     max: "" or the largest value of field a its validate accepts        *)
(*   D pointer to the type c[1], chosen by its field "type" among the      *)
(*     registered types r (sequence of [v |-> text, ty |-> type])          *)
(*                                                                         *)
(* A value is [t, v, c] (values of a structure: base first, then fields;   *)
(* "0" is an absent optional or pointer). A node is as in NodeTree.        *)
(***************************************************************************)
EXTENDS Chars

None == [t |-> "n", v |-> "", k |-> <<>>, c |-> <<>>]
Text(s) == [t |-> "s", v |-> s, k |-> <<>>, c |-> <<>>]
ListNode(cs) == [t |-> "q", v |-> "", k |-> <<>>, c |-> cs]
MapNode(ks, cs) == [t |-> "m", v |-> "", k |-> ks, c |-> cs]
IsNone(n) == n.t = "n"

Val(t, v, c) == [t |-> t, v |-> v, c |-> c]
Absent == Val("0", "", <<>>)

RECURSIVE KeyPos(_, _, _)
KeyPos(ks, k, i) == IF i > Len(ks) THEN 0 ELSE IF ks[i] = k THEN i ELSE KeyPos(ks, k, i + 1)
Child(n, k) == LET i == IF n.t = "m" THEN KeyPos(n.k, k, 1) ELSE 0 IN IF i = 0 THEN None ELSE n.c[i]
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RECURSIVE Slot(_, _, _)
Slot(ks, k, i) == IF i > Len(ks) THEN i ELSE IF StrLess(k, ks[i]) THEN i ELSE Slot(ks, k, i + 1)
\* n with the entry k set to x; whatever n was before, it is a map now.
Put(n, k, x) ==
    LET m == IF n.t = "m" THEN n ELSE MapNode(<<>>, <<>>)
        i == KeyPos(m.k, k, 1) IN
    IF i # 0 THEN [m EXCEPT !.c[i] = x]
    ELSE LET j == Slot(m.k, k, 1) IN MapNode(Insert(m.k, j, k), Insert(m.c, j, x))

\* --------------------------------------------------------- texts and numbers
Digit == {Ch("0123456789", i) : i \in 1..10}
White == {" ", "\t", "\n", "\r"}
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN StripZeros(From(d, 2)) ELSE d
\* The integer a text starts with (0 if none), as a stream reads it.
IntText(s) ==
    LET p == FindOut(s, White, 1)
        t == IF p = 0 THEN "" ELSE From(s, p)
        signed == t # "" /\ Ch(t, 1) \in {"+", "-"}
        neg == signed /\ Ch(t, 1) = "-"
        u == IF signed THEN From(t, 2) ELSE t
        e == FindOut(u, Digit, 1)
        d == IF e = 0 THEN u ELSE Upto(u, e - 1)
        m == StripZeros(d)
        lim == IF neg THEN "2147483648" ELSE "2147483647"
        big == Len(m) > 10 \/ (Len(m) = 10 /\ StrLess(lim, m)) IN
    IF d = "" \/ m = "0" THEN "0" ELSE (IF neg THEN "-" ELSE "") \o (IF big THEN lim ELSE m)
IntLess(a, b) ==
    LET na == Ch(a, 1) = "-"   nb == Ch(b, 1) = "-"
        Abs(x) == IF Ch(x, 1) = "-" THEN From(x, 2) ELSE x
        Smaller(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ StrLess(x, y)) IN
    IF na /\ ~nb THEN TRUE ELSE IF ~na /\ nb THEN FALSE
    ELSE IF na THEN Smaller(Abs(b), Abs(a)) ELSE Smaller(a, b)
\* Reals: the forms used by the drivers; others as integers.
Reals == [x \in {"0.5", ".5", "1.25", "-2.75", "3.0", "1e3", "1e-05", "0.001", "-0.125", "12.5", "1.9", "7.0x",
              "99999999999", "2147483647", "-2147483648"} |->
            CASE x = ".5" -> "0.5" [] x = "3.0" -> "3" [] x = "1e3" -> "1000" [] x = "7.0x" -> "7" [] x = "99999999999" -> "1e+11"
              [] x = "2147483647" -> "2.14748e+09" [] x = "-2147483648" -> "-2.14748e+09" [] OTHER -> x]
RealText(s) == IF s \in DOMAIN Reals THEN Reals[s] ELSE IntText(s)
LowerOf == [c \in {Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i) : i \in 1..26} |->
              CHOOSE l \in {Ch("abcdefghijklmnopqrstuvwxyz", i) : i \in 1..26} : Ord[l] - Ord[c] = 32]
RECURSIVE Lower(_, _)
Lower(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in DOMAIN LowerOf THEN LowerOf[Ch(s, i)] ELSE Ch(s, i)) \o Lower(s, i + 1)
BoolText(s) == IF Lower(s, 1) \in {"true", "yes", "1"} THEN "True" ELSE "False"

\* Names in byte order, as the messages list them.
RECURSIVE SortTexts(_)
SortTexts(ss) == IF ss = <<>> THEN <<>> ELSE LET r == SortTexts(Tail(ss)) IN Insert(r, Slot(r, Head(ss), 1), Head(ss))
Names(ss) == "{" \o Join(SortTexts(ss), ", ") \o "}"

\* ------------------------------------------------------------- bracket lists
Brackets == {"[", "]", NL}
LooksLikeList(s) == Len(s) >= 2 /\ Ch(s, 1) = "[" /\ Ch(s, Len(s)) = "]" /\ FindIn(s, Brackets, 2) = Len(s)
BracketItems(s) ==
    LET a == FindOut(s, White \cup {"["}, 1)
        l == IF a = 0 THEN "" ELSE From(s, a)
        r == Upto(l, LastOut(l, White \cup {"]"}, Len(l))) IN
    IF r = "" THEN <<>> ELSE LET ps == Split(r, ",") IN [i \in 1..Len(ps) |-> Trim(ps[i])]
\* The items a list-like value is loaded from.
AsList(n) ==
    CASE n.t = "q" -> [ok |-> TRUE, c |-> n.c, msg |-> ""]
      [] n.t = "s" /\ n.v # "" /\ ~LooksLikeList(n.v) -> [ok |-> FALSE, c |-> <<>>, msg |-> "Failed to parse string: `" \o n.v \o "`. Expected a list."]
      [] n.t = "s" -> LET w == BracketItems(n.v) IN [ok |-> TRUE, c |-> [i \in 1..Len(w) |-> Text(w[i])], msg |-> ""]
      [] OTHER -> [ok |-> TRUE, c |-> <<>>, msg |-> ""]

\* -------------------------------------------------------------------- values
RECURSIVE Default(_)
Default(ty) ==
    CASE ty.t \in {"i", "d"} -> Val(ty.t, "0", <<>>)
      [] ty.t = "b" -> Val("b", "False", <<>>)
      [] ty.t = "s" -> Val("s", "", <<>>)
      [] ty.t = "e" -> Val("e", ty.k[1], <<>>)
      [] ty.t \in {"q", "u"} -> Val(ty.t, "", <<>>)
      [] ty.t \in {"o", "p", "D"} -> Absent
      [] ty.t = "a" -> Val("a", "", [i \in 1..ty.n |-> Default(ty.c[1])])
      [] ty.t = "S" -> ty.dv

ItemLess(ty, a, b) ==
    CASE ty.t = "i" -> IntLess(a.v, b.v)
      [] ty.t = "e" -> KeyPos(ty.k, a.v, 1) < KeyPos(ty.k, b.v, 1)
      [] OTHER -> StrLess(a.v, b.v)
RECURSIVE SetInsert(_, _, _, _)
SetInsert(ty, s, x, i) ==
    IF i > Len(s) THEN Append(s, x)
    ELSE IF s[i] = x THEN s
    ELSE IF ItemLess(ty, x, s[i]) THEN Insert(s, i, x) ELSE SetInsert(ty, s, x, i + 1)
RECURSIVE SetOf(_, _, _)
SetOf(ty, items, i) == IF i = 0 THEN <<>> ELSE SetInsert(ty, SetOf(ty, items, i - 1), items[i], 1)

\* ------------------------------------------------------------------- loading
Good(v, log) == [ok |-> TRUE, v |-> v, log |-> log, path |-> <<>>, msg |-> ""]
Bad(v, log, path, msg) == [ok |-> FALSE, v |-> v, log |-> log, path |-> path, msg |-> msg]
Under(r, name) == [r EXCEPT !.path = <<name>> \o r.path]

\* old: the value before; raw: without hooks.
RECURSIVE Load(_, _, _, _)
RECURSIVE LoadItems(_, _, _, _)
RECURSIVE LoadFields(_, _, _, _, _)
LoadItems(ty, cs, i, raw) ==           \* -> values of items 1..i
    IF i = 0 THEN Good(<<>>, <<>>)
    ELSE LET p == LoadItems(ty, cs, i - 1, raw) IN
         IF ~p.ok THEN p
         ELSE LET r == Load(ty, Default(ty), cs[i], raw) IN
              IF r.ok THEN Good(Append(p.v, r.v), p.log \o r.log)
              ELSE Under(Bad(p.v, p.log \o r.log, r.path, r.msg), "<" \o ToString(i - 1) \o ">")
\* Fields i.. of ty into the values vs (without base).
LoadFields(ty, vs, n, i, raw) ==
    IF i > Len(ty.k) THEN Good(vs, <<>>)
    ELSE LET ch == Child(n, ty.k[i]) IN
         IF IsNone(ch) THEN LoadFields(ty, vs, n, i + 1, raw)
         ELSE LET r == Load(ty.c[i], vs[i], ch, raw) IN
              IF ~r.ok THEN Under(Bad(vs, r.log, r.path, r.msg), ty.k[i])
              ELSE LET q == LoadFields(ty, [vs EXCEPT ![i] = r.v], n, i + 1, raw) IN [q EXCEPT !.log = r.log \o q.log]

RECURSIVE FirstMissing(_, _, _)
FirstMissing(req, n, i) == IF i > Len(req) THEN 0 ELSE IF IsNone(Child(n, req[i])) THEN i ELSE FirstMissing(req, n, i + 1)

LoadStruct(ty, old, n, raw) ==
    LET m == FirstMissing(ty.req, n, 1)
        nb == Len(ty.base) IN
    IF m # 0 THEN Bad(old, <<>>, <<>>, "Missing required field `" \o ty.req[m] \o "`") ELSE
    LET b == IF nb = 0 THEN Good(old, <<>>) ELSE Load(ty.base[1], old.c[1], n, raw) IN
    IF ~b.ok THEN b ELSE
    LET f == LoadFields(ty, SubSeq(old.c, nb + 1, Len(old.c)), n, 1, raw)
        v == Val("S", ty.n, (IF nb = 0 THEN <<>> ELSE <<b.v>>) \o f.v)
        hook(h, own) == IF own THEN <<[h |-> h, n |-> ty.n, v |-> v]>> ELSE <<>>
        der == b.log \o f.log \o hook("derive", ty.derive)
        a == KeyPos(ty.k, "a", 1) IN
    IF ~f.ok THEN [f EXCEPT !.v = old, !.log = b.log \o f.log]
    ELSE IF raw THEN Good(v, b.log \o f.log)
    ELSE IF ty.validate /\ ty.max # "" /\ IntLess(ty.max, f.v[a].v)
         THEN Bad(v, der \o hook("validate", TRUE), IF ty.vf = "" THEN <<>> ELSE <<ty.vf>>, "too large")
    ELSE Good(v, der \o hook("validate", ty.validate))

RECURSIVE RegPos(_, _, _)
RegPos(rs, v, i) == IF i > Len(rs) THEN 0 ELSE IF rs[i].v = v THEN i ELSE RegPos(rs, v, i + 1)
\* The value of the base's field "type".
TypeOf(base, v) == LET i == KeyPos(base.k, "type", 1) IN v.c[Len(base.base) + i].v

LoadChosen(ty, n, raw) ==
    IF IsNone(Child(n, "type")) THEN Bad(Absent, <<>>, <<>>, "Missing required field `type`") ELSE
    LET b == Load(ty.c[1], Default(ty.c[1]), n, TRUE) IN
    IF ~b.ok THEN [b EXCEPT !.v = Absent] ELSE
    LET i == RegPos(ty.r, TypeOf(ty.c[1], b.v), 1) IN
    IF i = 0 THEN Bad(Absent, <<>>, <<>>, "Could not find registered derived class associated with type: " \o TypeOf(ty.c[1], b.v)) ELSE
    LET r == Load(ty.r[i].ty, Default(ty.r[i].ty), n, raw) IN
    IF r.ok THEN Good(Val("p", "", <<r.v>>), r.log) ELSE [r EXCEPT !.v = Absent]

Load(ty, old, n, raw) ==
    LET txt == IF n.t = "s" THEN n.v ELSE "" IN
    CASE ty.t = "p" -> LET r == Load(ty.c[1], Default(ty.c[1]), n, raw) IN
                       IF r.ok THEN Good(Val("p", "", <<r.v>>), r.log) ELSE [r EXCEPT !.v = old]
      [] ty.t = "D" -> LoadChosen(ty, n, raw)
      [] ty.t = "S" -> LoadStruct(ty, old, n, raw)
      [] OTHER ->
         IF IsNone(n) THEN Good(old, <<>>) ELSE
         CASE ty.t = "i" -> Good(Val("i", IntText(txt), <<>>), <<>>)
           [] ty.t = "d" -> Good(Val("d", RealText(txt), <<>>), <<>>)
           [] ty.t = "b" -> Good(Val("b", BoolText(txt), <<>>), <<>>)
           [] ty.t = "s" -> Good(Val("s", txt, <<>>), <<>>)
           [] ty.t = "e" -> IF KeyPos(ty.k, txt, 1) # 0 THEN Good(Val("e", txt, <<>>), <<>>)
                            ELSE Bad(old, <<>>, <<>>, "Provided value, `" \o txt \o "` was not of allowed values: " \o Names(ty.k))
           [] ty.t = "o" -> LET r == Load(ty.c[1], Default(ty.c[1]), n, raw) IN
                            IF r.ok THEN Good(Val("o", "", <<r.v>>), r.log) ELSE [r EXCEPT !.v = old]
           [] OTHER ->
              LET l == AsList(n)
                  it == LoadItems(ty.c[1], l.c, Len(l.c), raw) IN
              IF ~l.ok THEN Bad(old, <<>>, <<>>, l.msg)
              ELSE IF ty.t = "a" /\ Len(l.c) # ty.n
                   THEN Bad(old, <<>>, <<>>, "Expected a list of length: " \o ToString(ty.n) \o ". Found list of length: " \o ToString(Len(l.c)))
              ELSE IF ~it.ok THEN [it EXCEPT !.v = old]
              ELSE Good(Val(ty.t, "", IF ty.t = "u" THEN SetOf(ty.c[1], it.v, Len(it.v)) ELSE it.v), it.log)

\* ------------------------------------------------------------------- storing
RECURSIVE Store(_, _, _)
RECURSIVE StoreFields(_, _, _, _)
StoreFields(ty, vs, i, n) ==
    IF i > Len(ty.k) THEN n
    ELSE StoreFields(ty, vs, i + 1, Put(n, ty.k[i], Store(ty.c[i], vs[i], Child(n, ty.k[i]))))
Store(ty, v, n) ==
    CASE v.t = "0" -> None
      [] ty.t \in {"i", "d", "b", "s", "e"} -> Text(v.v)
      [] ty.t \in {"q", "u", "a"} -> ListNode([i \in 1..Len(v.c) |-> Store(ty.c[1], v.c[i], None)])
      [] ty.t = "o" -> Store(ty.c[1], v.c[1], None)
      [] ty.t = "p" -> Store(ty.c[1], v.c[1], n)
      [] ty.t = "D" -> LET i == CHOOSE i \in 1..Len(ty.r) : ty.r[i].ty.n = v.c[1].v IN Store(ty.r[i].ty, v.c[1], n)
      [] ty.t = "S" -> LET nb == Len(ty.base)
                           m == IF nb = 0 THEN n ELSE Store(ty.base[1], v.c[1], n) IN
                       StoreFields(ty, SubSeq(v.c, nb + 1, Len(v.c)), 1, m)

\* ------------------------------------------------------------ strict loading
\* Is every entry of b present in a?
RECURSIVE Subset(_, _)
RECURSIVE SubsetMap(_, _, _)
RECURSIVE SubsetList(_, _, _)
Fine == [ok |-> TRUE, path |-> <<>>, msg |-> ""]
Not(msg) == [ok |-> FALSE, path |-> <<>>, msg |-> msg]
SubsetMap(a, b, i) ==
    IF i > Len(b.k) THEN Fine
    ELSE IF IsNone(b.c[i]) THEN SubsetMap(a, b, i + 1)
    ELSE LET x == Child(a, b.k[i]) IN
         IF IsNone(x) THEN Not("Found unexpected field: " \o b.k[i])
         ELSE LET r == Subset(x, b.c[i]) IN
              IF r.ok THEN SubsetMap(a, b, i + 1) ELSE Under(r, b.k[i])
SubsetList(a, b, i) ==
    IF i > Len(b.c) THEN Fine
    ELSE IF i > Len(a.c) THEN Not("Not all Yaml values were loaded")
    ELSE LET r == Subset(a.c[i], b.c[i]) IN
         IF r.ok THEN SubsetList(a, b, i + 1) ELSE Under(r, "<" \o ToString(i - 1) \o ">")
Subset(a, b) ==
    CASE b.t = "m" -> IF a.t # "m" THEN Not("Input Yaml contains dictionary where deserialized object does not.") ELSE SubsetMap(a, b, 1)
      [] b.t = "q" -> IF a.t # "q" THEN Not("Input Yaml contains list where deserialized object does not.") ELSE SubsetList(a, b, 1)
      [] OTHER -> Fine

\* Several objects from one document, and into one document.
RECURSIVE LoadAll(_, _, _, _, _)
LoadAll(tys, vs, n, i, raw) ==
    IF i > Len(tys) THEN Good(vs, <<>>)
    ELSE LET r == Load(tys[i], vs[i], n, raw) IN
         IF ~r.ok THEN [r EXCEPT !.v = vs]
         ELSE LET q == LoadAll(tys, [vs EXCEPT ![i] = r.v], n, i + 1, raw) IN [q EXCEPT !.log = r.log \o q.log]
RECURSIVE StoreAll(_, _, _, _)
StoreAll(tys, vs, i, n) == IF i > Len(tys) THEN n ELSE StoreAll(tys, vs, i + 1, Store(tys[i], vs[i], n))

LoadStrict(tys, vs, n) ==
    LET r == LoadAll(tys, vs, n, 1, TRUE) IN
    IF ~r.ok THEN r
    ELSE LET s == Subset(StoreAll(tys, r.v, 1, None), n) IN
         IF ~s.ok THEN Bad(r.v, r.log, s.path, s.msg)
         ELSE LoadAll(tys, r.v, n, 1, FALSE)

Doc(tys, vs, n, strict) == IF strict THEN LoadStrict(tys, vs, n) ELSE LoadAll(tys, vs, n, 1, FALSE)

\* The message of an error raised below a path of fields.
Message(r) == IF r.path = <<>> THEN r.msg ELSE "Error in field " \o Join(r.path, ".") \o ": " \o r.msg

\* ------------------------------------------- what strict loading should mean
\* Every entry of the document is a field, an item or a text some object takes.
RECURSIVE Used(_, _)
RECURSIVE FieldTypes(_, _)
FieldTypes(ty, k) ==     \* types of the fields named k in ty and its bases
    (IF Len(ty.base) = 0 THEN {} ELSE FieldTypes(ty.base[1], k))
    \cup {ty.c[i] : i \in {i \in 1..Len(ty.k) : ty.k[i] = k}}
Used(ty, n) ==
    IF IsNone(n) THEN TRUE ELSE
    CASE ty.t \in {"o", "p"} -> Used(ty.c[1], n)
      [] ty.t \in {"i", "d", "b", "s", "e"} -> n.t = "s"
      [] ty.t \in {"q", "u", "a"} ->
            /\ n.t = "s" \/ (n.t = "q" /\ \A i \in 1..Len(n.c) : Used(ty.c[1], n.c[i]))
            /\ (ty.t = "u" /\ n.t = "q") => Len(Load(ty, Default(ty), n, TRUE).v.c) = Len(n.c)   \* no item twice
      [] ty.t = "S" -> n.t = "s" \/ (n.t = "m" /\ \A i \in 1..Len(n.k) :
                          IsNone(n.c[i]) \/ \E f \in FieldTypes(ty, n.k[i]) : Used(f, n.c[i]))
      [] ty.t = "D" -> n.t = "m" /\ \E i \in 1..Len(ty.r) :
                          Child(n, "type") = Text(ty.r[i].v) /\ Used(ty.r[i].ty, n)
=============================================================================
