------------------------------ MODULE MCYamlText ------------------------------
(* Every short text over an alphabet of troublesome characters, as document, *)
(* list item, map value and key: each is written and read back as it was.    *)
EXTENDS YamlWrite
CONSTANTS Alphabet, MaxLen
VARIABLE text
Cfg(i, m, s, n) == [ind |-> i, max |-> m, seqnl |-> s, mapnl |-> n]
Troublesome == {"a", " ", ":", "-", "\"", "\\", "#", "'", "\n", "|", ".", "\t"}
Init == text = ""
Next == Len(text) < MaxLen /\ \E c \in Alphabet : text' = text \o c
Spec == Init /\ [][Next]_text
Places(v) == {Leaf(v), List(<<Leaf(v), Leaf("z")>>), Map(<<"k", "l">>, <<Leaf(v), List(<<List(<<Leaf(v)>>)>>)>>), List(<<Map(<<"k">>, <<Map(<<"j">>, <<Leaf(v)>>)>>)>>)}
        \cup (IF NoneOf(v, {NL}) THEN {Map(<<v>>, <<Leaf(v)>>)} ELSE {})
Inv == \A t \in Places(text) : \A c \in {Cfg(2, 64, FALSE, FALSE), Cfg(3, 2, TRUE, TRUE)} : RoundTrip(t, c)
=============================================================================
