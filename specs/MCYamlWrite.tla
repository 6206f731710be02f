----------------------------- MODULE MCYamlWrite ------------------------------
(* Every tree of a few nodes is written and read under every layout.         *)
EXTENDS YamlWrite
CONSTANTS Keys, Texts, MaxNodes, Configs
VARIABLE tree

Cfg(i, m, s, n) == [ind |-> i, max |-> m, seqnl |-> s, mapnl |-> n]
SomeConfigs == {Cfg(2, 64, FALSE, FALSE), Cfg(3, 4, TRUE, TRUE), Cfg(4, 0, TRUE, FALSE), Cfg(2, 1, FALSE, TRUE)}
SomeTexts == {"", "a b c d", "- x: # y", "q\"", "1\n 2\n"}
SomeKeys == {"k", "a: \"b"}

Fill == {None} \cup {Leaf(v) : v \in Texts}
Grow(n) == {PushBack(n, x) : x \in Fill} \cup {PutKey(n, k, x) : x \in Fill, k \in Keys}
Init == tree \in Fill
Next == /\ Nodes(tree) < MaxNodes
        /\ \E p \in Paths(tree) :
            LET n == Get(tree, p) IN \E m \in Grow(n) : tree' = Put(tree, p, m)
Spec == Init /\ [][Next]_tree
Inv == \A c \in Configs : RoundTrip(tree, c)
=============================================================================
