------------------------------ MODULE MCYamlGen -------------------------------
(* Small and large instances of YamlGen; PRINT=1 prints documents to replay. *)
EXTENDS YamlGen, Json, IOUtils

W(b, a, e, c) == [before |-> b, after |-> a, end |-> e, crlf |-> c]
SmallWraps == {W(<<>>, <<>>, TRUE, FALSE), W(<<>>, <<>>, FALSE, TRUE),
               W(<<"# title: x", "---">>, <<"...", "- junk: [">>, TRUE, FALSE)}
AllWraps == SmallWraps \cup {W(<<"---">>, <<>>, TRUE, TRUE), W(<<"", "%YAML", "---", "", "">>, <<"---", "next: 1">>, FALSE, FALSE),
             W(<<"", "   ">>, <<"", "# end", "  ">>, TRUE, FALSE)}
SmallKeys == {[text |-> "k", key |-> "k"], [text |-> "\"a: #\"", key |-> "a: #"]}
AllKeys == SmallKeys \cup {[text |-> "two words", key |-> "two words"], [text |-> "Z-9", key |-> "Z-9"], [text |-> "-x", key |-> "-x"],
            [text |-> "\"q\\\"r\"", key |-> "q\"r"], [text |-> "12", key |-> "12"], [text |-> "b\\/c", key |-> "b/c"], [text |-> "\"\"", key |-> ""],
            [text |-> "a.b", key |-> "a.b"], [text |-> "it's", key |-> "it's"]}
SmallWords == {"v"}
AllWords == {"v", "two words", "-1.5e-3", "[1, 2 , x]", "{a}", "~", "*p &q !t", "a-b/c", "--", "100%", "x\\y", "-", "true"} \ {"-"}
SmallCited == {[text |-> "\"x: y # z\"", value |-> "x: y # z"]}
AllCited == SmallCited \cup {[text |-> "'single'", value |-> "single"], [text |-> "\"\"", value |-> ""], [text |-> "''", value |-> ""],
             [text |-> "\" outer \"", value |-> " outer "], [text |-> "\"- it's\"", value |-> "- it's"], [text |-> "\"|\"", value |-> "|"],
             [text |-> "\"a\tb\"", value |-> "a\tb"]}
SmallStyles == {"plain", "cited", "empty", "below", "lines", "folded"}
AllStyles == SmallStyles \cup {"literal", "literal1", "folded1", "citedlines"}
MidStyles == SmallStyles \cup {"literal"}
SmallTails == {""}
MidTails == {"", " # c"}
AllTails == {"", "  ", " # note: 'x", "# glued", "\t# tab"}
SmallNoise == {}
AllGaps == {"", " ", "\t"}
AllNoise == {"", "   ", "# c: d", "       # - deep"}

All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

\* Every complete document of the instance.
PrintAll == IF Complete /\ IOEnv.PRINT = "1"
            THEN \A w \in Wraps : PrintT("CASE " \o ToJson([text |-> Text(w), tree |-> tree])) ELSE TRUE
AgreeOne == Complete => \A w \in One(Wraps) : LET o == Read(Text(w)) IN o.ok /\ o.tree = tree
\* In simulation: the document at the end of each behaviour.
PrintLast == IF Complete /\ (entries = MaxEntries \/ Top.k = "s") /\ Len(stack) = 1
             THEN \A w \in One(Wraps) : PrintT("CASE " \o ToJson([text |-> Text(w), tree |-> tree])) ELSE TRUE
RejectsOne == Complete => \A w \in One(Wraps) : \A sp \in Spoils :
              LET o == Read(BadText(sp, w)) IN
              /\ ~o.ok /\ (sp.at # 0 => o.line = Len(w.before) + sp.at)
              /\ PrintT("CASE " \o ToJson([text |-> BadText(sp, w), line |-> o.line]))
=============================================================================
