------------------------------- MODULE Dispatch -------------------------------
(***************************************************************************)
(* Applying a list of handlers to an object: each is tried in turn; the    *)
(* first whose class the object is of runs, once; if none does, `apply`    *)
(* raises an error and `try_apply` says so. An error raised by the handler *)
(* reaches the caller; no other handler runs.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT Parent           \* class -> parent class, "" for the root
VARIABLES dyn, hs, mode, boom, pos, ran, end

vars == <<dyn, hs, mode, boom, pos, ran, end>>
RECURSIVE IsA(_, _)
IsA(c, d) == c = d \/ (Parent[c] # "" /\ IsA(Parent[c], d))
Takes(h, c) == h = "*" \/ IsA(c, h)

Start(d, l, m, b) == dyn = d /\ hs = l /\ mode = m /\ boom = b /\ pos = 1 /\ ran = <<>> /\ end = ""
Skip == end = "" /\ pos <= Len(hs) /\ ~Takes(hs[pos], dyn) /\ pos' = pos + 1 /\ UNCHANGED <<dyn, hs, mode, boom, ran, end>>
Run == end = "" /\ pos <= Len(hs) /\ Takes(hs[pos], dyn) /\ ran' = Append(ran, pos) /\ end' = (IF boom THEN "error" ELSE "done") /\ UNCHANGED <<dyn, hs, mode, boom, pos>>
GiveUp == end = "" /\ pos > Len(hs) /\ end' = (IF mode = "try" THEN "false" ELSE "error") /\ UNCHANGED <<dyn, hs, mode, boom, pos, ran>>
Step == Skip \/ Run \/ GiveUp

\* What the steps amount to.
First(d, l) == IF \E i \in 1..Len(l) : Takes(l[i], d) THEN CHOOSE i \in 1..Len(l) : Takes(l[i], d) /\ \A j \in 1..(i - 1) : ~Takes(l[j], d) ELSE 0
Outcome(d, l, m, b) == [ran |-> IF First(d, l) = 0 THEN 0 ELSE 1, which |-> First(d, l), self |-> TRUE,
                     ret |-> First(d, l) # 0 \/ m # "try", threw |-> IF First(d, l) = 0 THEN m # "try" ELSE b]
AtMostOnce == Len(ran) <= 1
AsMeant == end # "" =>
    LET o == Outcome(dyn, hs, mode, boom) IN
    /\ Len(ran) = o.ran /\ (o.ran = 1 => ran[1] = o.which)
    /\ (end = "error") = o.threw /\ (end = "false") = ~o.ret
=============================================================================
