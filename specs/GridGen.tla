------------------------------- MODULE GridGen ------------------------------
(* Builds input grids: a block of cubes (of size 2), each a hexahedron, six
   pyramids, two wedges or five tetrahedra, mapped by an integer matrix; cells and
   vertices numbered in any order, cells turned, and given to processes.      *)
EXTENDS Distribute, TLC, Json
CONSTANTS Dims,    \* <<nx, ny, nz>>
          Shapes,  \* "H", "P", "W" (mixed freely; wedges in whole columns), "T" (all cubes)
          Maps, Nps, Sim, Rec,
          Orders   \* whether cells are numbered in every order
VARIABLES ph, todo, pts, cells, num, own, mp, np, dims
gvars == <<dvars, ph, todo, pts, cells, num, own, mp, np, dims>>
Pick(Z) == IF Sim /\ ph >= 0 /\ Z # {} THEN {RandomElement(Z)} ELSE Z
One(Z) == IF Sim /\ ph >= 0 THEN {RandomElement(Z)} ELSE {CHOOSE z \in Z : TRUE}
Cube(c) == LET x == 2 * c[1] y == 2 * c[2] z == 2 * c[3] IN
  <<<<x, y, z>>, <<x + 2, y, z>>, <<x + 2, y + 2, z>>, <<x, y + 2, z>>, <<x, y, z + 2>>, <<x + 2, y, z + 2>>, <<x + 2, y + 2, z + 2>>, <<x, y + 2, z + 2>>>>
Sub(q, s) == [j \in DOMAIN s |-> q[s[j]]]
Split(c, k) == LET q == Cube(c) m == Plus(q[1], <<1, 1, 1>>) IN
  CASE k = "H" -> {q}
    [] k = "P" -> {Append([j \in 1..4 |-> q[Corners[8][i][5 - j]]], m) : i \in 1..6}
    [] k = "W" -> {Sub(q, <<1, 2, 3, 5, 6, 7>>), Sub(q, <<1, 3, 4, 5, 7, 8>>)}
    [] k = "T" -> IF (c[1] + c[2] + c[3]) % 2 = 0
                  THEN {Sub(q, <<1, 2, 3, 6>>), Sub(q, <<1, 6, 8, 5>>), Sub(q, <<1, 6, 3, 8>>), Sub(q, <<8, 6, 3, 7>>), Sub(q, <<1, 3, 4, 8>>)}
                  ELSE {Sub(q, <<2, 4, 1, 5>>), Sub(q, <<2, 3, 4, 7>>), Sub(q, <<2, 5, 6, 7>>), Sub(q, <<2, 4, 5, 7>>), Sub(q, <<4, 5, 7, 8>>)}
\* ways of turning a cell that keep its shape and orientation
Turns == [k \in {4, 5, 6, 8} |->
  CASE k = 4 -> {<<1, 2, 3, 4>>, <<2, 3, 1, 4>>, <<4, 2, 1, 3>>, <<3, 4, 1, 2>>, <<4, 1, 3, 2>>}
    [] k = 5 -> {<<1, 2, 3, 4, 5>>, <<2, 3, 4, 1, 5>>, <<4, 1, 2, 3, 5>>}
    [] k = 6 -> {<<1, 2, 3, 4, 5, 6>>, <<2, 3, 1, 5, 6, 4>>, <<3, 1, 2, 6, 4, 5>>, <<4, 6, 5, 1, 3, 2>>}
    [] k = 8 -> {<<1, 2, 3, 4, 5, 6, 7, 8>>, <<2, 3, 4, 1, 6, 7, 8, 5>>, <<3, 4, 1, 2, 7, 8, 5, 6>>, <<5, 8, 7, 6, 1, 4, 3, 2>>, <<2, 6, 7, 3, 1, 5, 8, 4>>, <<1, 4, 8, 5, 2, 3, 7, 6>>}]
Apply(M, p) == <<Dot(M[1], p), Dot(M[2], p), Dot(M[3], p)>>
Cols(d) == (0..(d[1] - 1)) \X (0..(d[2] - 1))
Grids == {d \in Dims : TRUE}
GInit == DInit /\ ph = 0 /\ todo = {} /\ pts = {} /\ cells = <<>> /\ num = <<>> /\ own = <<>> /\ mp = <<>> /\ np = 0 /\ dims = <<>>
Choose == /\ ph = 0
          /\ \E d \in Pick(Dims), M \in Pick(Maps), k \in Pick(Nps) : mp' = M /\ np' = k /\ dims' = d
          /\ ph' = 1 /\ UNCHANGED <<dvars, todo, pts, cells, num, own>>
ShapeOf(tet, colk, cubek, c) == IF tet THEN "T" ELSE IF colk[<<c[1], c[2]>>] = "W" THEN "W" ELSE cubek[c]
Blocks(d) == {<<i, j, k>> : i \in 0..(d[1] - 1), j \in 0..(d[2] - 1), k \in 0..(d[3] - 1)}
Cut == /\ ph = 1
       /\ \E tet \in Pick(IF Shapes = {"T"} THEN {TRUE} ELSE IF "T" \in Shapes THEN {TRUE, FALSE} ELSE {FALSE}),
             colk \in Pick([Cols(dims) -> IF "W" \in Shapes THEN (IF Shapes \ {"W", "T"} = {} THEN {"W"} ELSE {"W", "-"}) ELSE {"-"}]),
             cubek \in Pick([Blocks(dims) -> LET z == Shapes \cap {"H", "P"} IN IF z = {} THEN {"H"} ELSE z]) :
            /\ todo' = UNION {Split(c, ShapeOf(tet, colk, cubek, c)) : c \in Blocks(dims)}
            /\ pts' = UNION {Range(c) : c \in todo'}
       /\ ph' = 2 /\ UNCHANGED <<dvars, cells, num, own, mp, np, dims>>
NumberVertex == /\ ph = 2 /\ pts # {}
                /\ \E p \in One(pts) : num' = Append(num, p) /\ pts' = pts \ {p}
                /\ ph' = IF pts' = {} THEN 3 ELSE 2
                /\ UNCHANGED <<dvars, todo, cells, own, mp, np, dims>>
Pos == [p \in Range(num) |-> (CHOOSE i \in DOMAIN num : num[i] = p) - 1]
NumberCell == /\ ph = 3 /\ todo # {}
              /\ \E c \in (IF Orders THEN Pick(todo) ELSE One(todo)) : \E t \in One(Turns[Len(c)]) :
                   /\ cells' = Append(cells, [j \in DOMAIN c |-> Pos[c[t[j]]]]) /\ todo' = todo \ {c}
              /\ \E r \in Pick(0..(np - 1)) : own' = Append(own, r)
              /\ ph' = IF todo' = {} THEN 4 ELSE 3
              /\ UNCHANGED <<dvars, pts, num, mp, np, dims>>
Coords == [i \in DOMAIN num |-> Apply(mp, Minus(num[i], <<1, 0, 2>>))]
----------------------------------------------------------------------------
(* One way of distributing, which is shown to satisfy Distributed: number the
   cells process by process, borrow the neighbours, number the vertices seen.  *)
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOfSet(S \ {m})
Give(g) ==
  LET o == [r \in 1..g.np |-> SeqOfSet(Owned(g, r - 1))]
      b == [r \in 1..g.np |-> SeqOfSet(Borrowed(g, r - 1))]
      off == [r \in 1..g.np |-> SumOf([q \in 1..(r - 1) |-> Len(o[q])])]
      number == [i \in Cells(g) |-> LET r == g.part[i + 1] + 1 IN off[r] + (CHOOSE k \in DOMAIN o[r] : o[r][k] = i) - 1]
      nat == [r \in 1..g.np |-> o[r] \o b[r]]
      vn == [r \in 1..g.np |-> SeqOfSet(UNION {Range(g.C[nat[r][k] + 1]) : k \in DOMAIN nat[r]})] IN
  [r \in 1..g.np |->
    [nl |-> Len(o[r]), ng |-> Len(b[r]), off |-> off[r], nat |-> nat[r], pet |-> [k \in DOMAIN nat[r] |-> number[nat[r][k]]],
     vn |-> vn[r], vx |-> [v \in DOMAIN vn[r] |-> At(g.X, vn[r][v])],
     cv |-> [k \in DOMAIN nat[r] |-> [j \in DOMAIN g.C[nat[r][k] + 1] |-> (CHOOSE v \in DOMAIN vn[r] : vn[r][v] = g.C[nat[r][k] + 1][j]) - 1]],
     nb |-> [k \in 1..Len(o[r]) |-> LET s == SeqOfSet(NbOf(g, o[r][k])) IN [j \in DOMAIN s |-> LET p == (CHOOSE x \in DOMAIN nat[r] : nat[r][x] = s[j]) - 1 IN IF p < Len(o[r]) THEN p ELSE -p]]]]
Done == /\ ph = 4 /\ ph' = 5
        /\ LET g == MkGrid(cells, Coords, own, np) IN Load(cells, Coords, own, np, IF Rec THEN <<>> ELSE Give(g), <<>>, TRUE)
        /\ UNCHANGED <<todo, pts, cells, num, own, mp, np, dims>>
GNext == Choose \/ Cut \/ NumberVertex \/ NumberCell \/ Done
GSpec == GInit /\ [][GNext]_gvars
Emit == ph = 5 => PrintT("SCEN " \o ToJson([C |-> cells, X |-> Coords, part |-> own, np |-> np]))
----------------------------------------------------------------------------
\* what is specified makes sense: faces have one or two cells, the cells fill the block, every cell is closed, transfers are lossless
Sound == ph = 5 =>
  /\ \A f \in UNION Range(grid.fs) : Cardinality({i \in DOMAIN grid.fs : f \in grid.fs[i]}) \in {1, 2}
  /\ \A i \in DOMAIN cells : Vol6(grid.X, cells[i]) > 0 /\ SumVec([j \in DOMAIN FacesOf(cells[i]) |-> Area2(grid.X, FacesOf(cells[i])[j])]) = <<0, 0, 0>>
  /\ SumOf([i \in DOMAIN cells |-> Vol6(grid.X, cells[i])]) = 48 * dims[1] * dims[2] * dims[3] * Abs(Dot(mp[1], Cross(mp[2], mp[3])))
  /\ ~Rec => Distributed(grid, tab)
  /\ ~Rec => LET nat == [i \in 1..Len(cells) |-> 100 + i] IN
       LET gl == GlobalOf(grid, tab, nat, 1) IN
         /\ Range(Flat(gl, 1)) = Range(nat) /\ Len(Flat(gl, 1)) = Len(nat)
         /\ \A r \in 1..np : \A k \in DOMAIN tab[r].nat : LocalOf(grid, tab, gl, 1)[r][k] = 101 + tab[r].nat[k]
=============================================================================
