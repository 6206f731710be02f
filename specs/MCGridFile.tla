------------------------------ MODULE MCGridFile --------------------------------
(* Every order of calls on small grids: the document always holds exactly the  *)
(* fields written so far, in order, and agrees with itself on the sizes.       *)
EXTENDS GridFile
CONSTANTS Max, Names
VARIABLES s, log

Fs == [name : Names, kind : {"Scalar"}, number : {"Int", "Float"}, precision : {"4", "8"}, where : {"a.h5:/x"}]
Init == s \in {New(<<a, b, c>>) : a, b, c \in 1..Max} /\ log = <<>>
Next == \/ s.phase = "new" /\ s' = Header(s, "g") /\ log' = log
        \/ s.phase = "open" /\ Len(log) < Max /\ \E f \in Fs : s' = Field(s, f) /\ log' = Append(log, f)
        \/ s.phase = "open" /\ s' = Footer(s) /\ log' = log
Spec == Init /\ [][Next]_<<s, log>>

Grid(d) == d.c[1].c[1]
Points(n) == (n[1] + 1) * (n[2] + 1) * (n[3] + 1)
HoldsFields ==
    LET d == Grid(Document(s)) IN
    /\ Len(d.c) = 2 + Len(log)
    /\ \A i \in 1..Len(log) :
        LET e == d.c[2 + i] IN
        /\ e.at.Name = log[i].name /\ Len(e.c) = 1 /\ e.c[1].text = log[i].where
        /\ e.c[1].at.Dimensions = Three(s.n[1], s.n[2], s.n[3])
        /\ <<e.c[1].at.NumberType, e.c[1].at.Precision>> = <<log[i].number, log[i].precision>>
CellsFit == Cells(s.n) < Points(s.n)
=============================================================================
