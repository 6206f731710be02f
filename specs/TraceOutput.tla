------------------------------- MODULE TraceOutput ------------------------------
(* Checks the output files of real runs, one output per line.                  *)
EXTENDS Output, Json, IOUtils
VARIABLE l
Log == ndJsonDeserialize(IOEnv.TRACE)
Near(a, b, tol) == Size(a - b) <= tol
RowNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
Names(as) == {as[i].name : i \in DOMAIN as}
Bad(b, what) == IF b THEN {what} ELSE {}

MeshErr(s, f) ==
    Bad(f.npoints # Len(s.x) \/ Len(f.points) # Len(s.x) \/ f.loose # 0, "the number of points is wrong")
    \cup Bad(f.ncells # Len(s.elems) \/ f.cells # s.elems, "the cells are not the elements")
    \cup Bad(Len(f.types) # Len(s.elems) \/ \E k \in DOMAIN f.types : f.types[k] # CellType(s.d), "the cells have another shape")
    \cup Bad(\E n \in DOMAIN s.x : ~RowNear(f.points[n], Three(s.x[n]), 2), "the points are not the nodes")
FieldErr(s, f) ==
    Bad(Names(f.cell) # ElemNames(s.asked) \/ Len(f.cell) # Cardinality(ElemNames(s.asked)), <<"the fields of the elements should be", ElemNames(s.asked), "are", Names(f.cell)>>)
    \cup Bad(Names(f.point) # NodeNames(s.asked) \/ Len(f.point) # Cardinality(NodeNames(s.asked)), <<"the fields of the nodes should be", NodeNames(s.asked), "are", Names(f.point)>>)
ElemErr(s, a) ==
    Bad(Len(a.v) # Len(s.elems), <<"wrong length of", a.name>>)
    \cup UNION {LET w == ElemRow(s, k, a.name) IN Bad(~RowNear(a.v[k], w, 16), <<a.name, "of element", k, "should be", w, "is", a.v[k]>>) : k \in Elements(s)}
Accel(s, n) == Three([d \in DOMAIN s.v[n] |-> s.v[n][d] - s.v0[n][d]])
NodeErr(s, a) ==
    Bad(Len(a.v) # Len(s.x), <<"wrong length of", a.name>>)
    \cup UNION {IF a.name = "node_accel"
                THEN Bad((~s.start \/ s.method = "level_set") /\ \E d \in 1 .. 3 : Size(a.v[n][d]) < 64 * One /\ ~Near(Mul(a.v[n][d], s.dt), Accel(s, n)[d], 72), <<"acceleration of node", n, "is", a.v[n], "times", s.dt, "velocity changes by", Accel(s, n)>>)
                ELSE LET w == NodeRow(s, n, a.name) IN Bad(~RowNear(a.v[n], w, 2), <<a.name, "of node", n, "should be", w, "is", a.v[n]>>) : n \in DOMAIN s.x}
(* A file of a material: its elements, with nodes of their own.                *)
MatErr(s, f, mat) ==
    LET ps == Of(s, mat)
        nodes == UNION {Range_(s.elems[ps[i].e]) : i \in DOMAIN ps}
    IN IF f.ncells # Len(ps) \/ Len(f.cells) # Len(ps) THEN {<<"the number of elements of material", mat, "is wrong">>}
       ELSE Bad(f.npoints # Cardinality(nodes) \/ Len(f.points) # f.npoints \/ f.loose # 0, <<"the number of points of material", mat, "is wrong">>)
            \cup Bad(\E i \in DOMAIN ps : ~(Len(f.cells[i]) = Len(s.elems[ps[i].e]) /\ f.types[i] = CellType(s.d) /\ \A c \in DOMAIN f.cells[i] : RowNear(f.points[f.cells[i][c]], Three(s.x[s.elems[ps[i].e][c]]), 2)), <<"the elements of material", mat, "are others">>)
            \cup Bad(Names(f.cell) # MatNames(s.asked) \/ Len(f.cell) # Cardinality(MatNames(s.asked)) \/ f.point # <<>>, <<"the fields of the material should be", MatNames(s.asked), "are", Names(f.cell)>>)
            \cup UNION {UNION {LET w == MatRow(ps[i], f.cell[j].name) IN Bad(Len(f.cell[j].v) # Len(ps) \/ ~RowNear(f.cell[j].v[i], w, 2), <<f.cell[j].name, "of material", mat, "in element", ps[i].e, "should be", w, "is", f.cell[j].v[i]>>) : i \in DOMAIN ps} : j \in DOMAIN f.cell}
Timely(a, b) == Near(a, b, 1 + (b \div 100000))
VizErr(s) ==
    LET want == Files(s, s.asked)
        got == s.viz
    IN IF Len(got) # Len(want) \/ \E i \in DOMAIN want : (got[i].block = "Mesh") # (want[i] = -1) THEN {<<"the output should list files of", want, "lists", Len(got), "files">>}
       ELSE UNION {IF ~Timely(got[i].t, s.t) THEN {<<"the time should be", s.t, "is", got[i].t>>}
                   ELSE IF ~got[i].there THEN {<<"the file of", want[i], "is missing">>}
                   ELSE IF want[i] = -1
                   THEN LET e == MeshErr(s, got[i].file) \cup FieldErr(s, got[i].file)
                        IN IF e # {} THEN e ELSE UNION {ElemErr(s, got[i].file.cell[j]) : j \in DOMAIN got[i].file.cell} \cup UNION {NodeErr(s, got[i].file.point[j]) : j \in DOMAIN got[i].file.point}
                   ELSE MatErr(s, got[i].file, want[i]) : i \in DOMAIN want}
(* A table of radii, and a number of columns of the state.                     *)
Radius(r, a) == Size(a[1]) + Size(a[2]) > 60 * One \/ Near(Mul(r, r), Sum([d \in DOMAIN a |-> Mul(a[d], a[d])]), 64 + 4 * (r \div One))
StateErr(s) ==
    LET ps == s.pts
        t == s.state.mat
        u == s.state.node
    IN (IF Len(t) # Len(ps) \/ Len(u) # Len(s.x) THEN {"the number of lines is wrong"}
        ELSE UNION {LET p == ps[i]
                        c == Centre(s, p.e)
                        w == c \o <<p.den, p.pres, p.sie, p.sspd, s.vol[p.e], p.mass>>
                        g == SubSeq(t[i], 1, 3) \o SubSeq(t[i], 6, 11)
                    IN Bad(Len(t[i]) # 11 \/ ~RowNear(g, w, 4) \/ ~Radius(t[i][4], SubSeq(c, 1, 2)) \/ ~Radius(t[i][5], c), <<"the line of material", p.mat, "in element", p.e, "should be", w, "is", t[i]>>) : i \in DOMAIN ps}
             \cup UNION {LET x == Three(s.x[n])
                             v == Three(s.v[n])
                             g == SubSeq(u[n], 1, 3) \o SubSeq(u[n], 6, 8)
                             across == Mul(v[1], x[2]) - Mul(v[2], x[1])
                         IN Bad(Len(u[n]) # 10 \/ ~RowNear(g, x \o v, 2) \/ ~Radius(u[n][4], SubSeq(x, 1, 2)) \/ ~Radius(u[n][5], x) \/ ~Radius(u[n][9], v)
                                \/ (u[n][4] > 1024 /\ ~Near(Mul(u[n][10], u[n][4]), Size(across), 64)), <<"the line of node", n, "should be", x \o v, "is", u[n]>>) : n \in DOMAIN s.x})
(* Ensight files have 5 digits after the first.                                *)
Rough(a, b) == Near(a, b, 4 + (Size(b) \div 60000))
RoughRow(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Rough(a[i], b[i])
EnsightErr(s) ==
    LET f == s.ensight
        o == EnsightOrder(s.d)
        single == {k \in Elements(s) : Len(In(s, k)) = 1}
    IN Bad(Len(f.points) # Len(s.x) \/ \E n \in DOMAIN s.x : ~RoughRow(f.points[n], Three(s.x[n])), "the points are not the nodes")
       \cup Bad(f.ncells # Len(s.elems) \/ Len(f.cells) # Len(s.elems) \/ f.kind # (IF s.d = 3 THEN "hexa8" ELSE "quad4")
                \/ \E k \in Elements(s) : f.cells[k] # [c \in DOMAIN s.elems[k] |-> s.elems[k][o[c]]], "the cells are not the elements")
       \cup UNION {LET a == f.elem[j] IN IF Len(a.v) # Len(s.elems) THEN {<<"wrong length of", a.name>>}
                   ELSE UNION {IF a.name = "speed" THEN Bad(~Radius(a.v[k], Flow(s, k)), <<"speed of element", k, "is", a.v[k]>>)
                               ELSE IF a.name = "vol" THEN Bad(~Rough(a.v[k], s.vol[k]), <<"volume of element", k, "is", a.v[k]>>)
                               ELSE IF k \notin single THEN {}
                               ELSE LET p == In(s, k)[1]
                                        w == IF a.name = "mat_id" THEN p.mat * One ELSE MatRow(p, "mat_" \o a.name)[1]
                                    IN Bad(~Rough(a.v[k], w), <<a.name, "of element", k, "should be", w, "is", a.v[k]>>) : k \in Elements(s)} : j \in DOMAIN f.elem}
       \cup UNION {LET a == f.node[j] IN IF Len(a.v) # Len(s.x) THEN {<<"wrong length of", a.name>>}
                   ELSE IF a.name = "accel" THEN {}
                   ELSE UNION {LET w == Three(IF a.name = "pos" THEN s.x[n] ELSE s.v[n]) IN Bad(~RoughRow(a.v[n], w), <<a.name, "of node", n, "should be", w, "is", a.v[n]>>) : n \in DOMAIN s.x} : j \in DOMAIN f.node}

(* The index of a solver's outputs lists them all, with their times.           *)
IndexErr(s) == LET want == [i \in DOMAIN s.times |-> [t |-> s.times[i], file |-> i - 1]]
               IN Bad(Len(s.index) # Len(want) \/ \E i \in DOMAIN want : s.index[i].file # want[i].file \/ ~Timely(s.index[i].t, want[i].t), <<"the index should list", want, "lists", s.index>>)

Has(s, k) == k \in DOMAIN s
Errors(s) == IF s.how # "ok" THEN {"the run to end"}
             ELSE IF Has(s, "unreadable") THEN {"files that can be read"}
             ELSE IF Has(s, "index") THEN IndexErr(s)
             ELSE (IF Has(s, "viz") THEN VizErr(s) ELSE {}) \cup (IF Has(s, "state") /\ ~Has(s, "over") THEN StateErr(s) ELSE {}) \cup (IF Has(s, "ensight") THEN EnsightErr(s) ELSE {})

Init == l = 1
Next == /\ l <= Len(Log)
        /\ LET x == Errors(Log[l]) IN IF x = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(x)) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
