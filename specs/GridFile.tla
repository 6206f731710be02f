------------------------------- MODULE GridFile ---------------------------------
(***************************************************************************)
(* The files that describe a result on a uniform grid: an XDMF document    *)
(* that refers to the data, and a VTK text that holds it. A writer is a    *)
(* machine: open, header, any number of fields, (footer,) close.           *)
(* An XML element is [tag, at (attribute -> text), text, c (children)].    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

El(tag, at, text, c) == [tag |-> tag, at |-> at, text |-> text, c |-> c]
Three(a, b, c) == ToString(a) \o " " \o ToString(b) \o " " \o ToString(c)

\* The writer's state: phase, grid size n, name, the fields so far.
New(n) == [phase |-> "new", n |-> n, name |-> "", fields |-> <<>>]
Header(s, name) == [s EXCEPT !.phase = "open", !.name = name]
Field(s, f) == [s EXCEPT !.fields = Append(s.fields, f)]
Footer(s) == [s EXCEPT !.phase = "done"]

\* ------------------------------------------------------------------ XDMF
\* A field: name, kind (Scalar, ...), number ("Int", "Float"), precision, where.
FieldElement(n, f) ==
    El("Attribute", [Name |-> f.name, AttributeType |-> f.kind, Center |-> "Cell"], "",
       <<El("DataItem", [Format |-> "HDF", Dimensions |-> Three(n[1], n[2], n[3]), NumberType |-> f.number, Precision |-> f.precision], f.where, <<>>)>>)
\* The grid has one more point than cells in each direction; fields are per cell.
Document(s) ==
    El("Xdmf", [Version |-> "2.2"], "",
     <<El("Domain", <<>>, "",
       <<El("Grid", [Name |-> s.name, GridType |-> "Uniform"], "",
          <<El("Topology", [TopologyType |-> "3DCoRectMesh", Dimensions |-> Three(s.n[1] + 1, s.n[2] + 1, s.n[3] + 1)], "", <<>>),
            El("Geometry", [Type |-> "ORIGIN_DXDYDZ"], "",
               <<El("DataItem", [Format |-> "XML", Dimensions |-> "3"], "0 0 0", <<>>),
                 El("DataItem", [Format |-> "XML", Dimensions |-> "3"], "1 1 1", <<>>)>>)>>
          \o [i \in 1..Len(s.fields) |-> FieldElement(s.n, s.fields[i])])>>)>>)
\* Number type and precision of the data of a C++ type; others are refused.
Numbers == [int |-> <<"Int", "4">>, float |-> <<"Float", "4">>, double |-> <<"Float", "8">>]
Deduced(ty) == IF ty \in DOMAIN Numbers THEN Numbers[ty] ELSE <<>>

\* ------------------------------------------------------------------- VTK
\* The file as a list of lines of words; a field: name, type, values (as texts).
Cells(n) == n[1] * n[2] * n[3]
RECURSIVE FieldLines(_, _)
FieldLines(fs, i) ==
    IF i > Len(fs) THEN <<>>
    ELSE <<<<"SCALARS", fs[i].name, fs[i].kind>>, <<"LOOKUP_TABLE", "default">>>>
         \o [k \in 1..Len(fs[i].values) |-> <<fs[i].values[k]>>] \o FieldLines(fs, i + 1)
VtkLines(s) ==
    <<<<"#", "vtk", "DataFile", "Version", "3.0">>, <<"Simulation", "outputs">>, <<"ASCII">>, <<"DATASET", "STRUCTURED_POINTS">>,
      <<"DIMENSIONS", ToString(s.n[1]), ToString(s.n[2]), ToString(s.n[3])>>,
      <<"ORIGIN", "0", "0", "0">>, <<"SPACING", "1", "1", "1">>, <<"POINT_DATA", ToString(Cells(s.n))>>>>
    \o FieldLines(s.fields, 1)
=============================================================================
