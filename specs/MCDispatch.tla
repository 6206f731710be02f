------------------------------ MODULE MCDispatch ------------------------------
EXTENDS Dispatch
CONSTANT Max
Tree == [DBase |-> "", DA |-> "DBase", DAA |-> "DA", DB |-> "DBase"]
Handlers == {"*", "DBase", "DA", "DAA", "DB"}
Init == \E d \in DOMAIN Parent, n \in 0..Max : \E l \in [1..n -> Handlers], m \in {"try", "apply"}, b \in BOOLEAN : Start(d, l, m, b)
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Ends == <>(end # "")
=============================================================================
