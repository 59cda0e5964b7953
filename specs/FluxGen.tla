------------------------------- MODULE FluxGen -------------------------------
(* Problems on blocks of boxes, as closed behaviours: a medium is chosen, runs are
   opened on it with closed and other boundaries, and residuals and Jacobians are
   asked for. The same behaviours are executed in the code.                     *)
EXTENDS Flux, TLC, Json
CONSTANTS Dims3, Widths, Kinds, Levels, Gs, Pres, Uniform, MaxOps, Sim, Rec
VARIABLES hist, n, g
gvars == <<vars, hist, n, g>>
Pick(Z) == IF Sim /\ n >= 0 /\ Z # {} THEN {RandomElement(Z)} ELSE Z
\* a number below m for place i of the choice y
H(y, i, m) == ((((y + 17) * (2 * i + 3) * (i + 5)) \div 7) + y \div (i + 1)) % m
Nth(Z, i) == LET f == CHOOSE f \in [0..(Cardinality(Z) - 1) -> Z] : \A a, b \in DOMAIN f : a < b => f[a] < f[b] IN f[i]
Go(e) == n < MaxOps /\ n' = (IF e.e = "jac" /\ ~Sim THEN n ELSE n + 1) /\ hist' = (IF Rec THEN Append(hist, e) ELSE hist)
Cell(d, c) == <<(c - 1) % d[1], ((c - 1) \div d[1]) % d[2], (c - 1) \div (d[1] * d[2])>>
Vert(d, x) == x[1] + (d[1] + 1) * (x[2] + (d[2] + 1) * x[3])
Corner == <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>>>
Count(d) == d[1] * d[2] * d[3]
CellsOf(d) == [c \in 1..Count(d) |-> [j \in 1..8 |-> Vert(d, [e \in 1..3 |-> Cell(d, c)[e] + Corner[j][e]])]]
PointsOf(d, w) == [v \in 1..((d[1] + 1) * (d[2] + 1) * (d[3] + 1)) |->
   <<w[1] * ((v - 1) % (d[1] + 1)), w[2] * (((v - 1) \div (d[1] + 1)) % (d[2] + 1)), w[3] * ((v - 1) \div ((d[1] + 1) * (d[2] + 1)))>>]
\* the middles of the faces of the boundary, in some order
Faces(C, X) == LET B == [c \in DOMAIN C |-> BoxOf(C[c], X)] IN {Middle(B[f[1]], f[2], f[3]) : f \in Outside(B)}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
GInit == Init /\ hist = <<>> /\ n = 0 /\ g = <<>>
Medium0(d, w, kind, G, y) ==
  LET C == CellsOf(d) X == PointsOf(d, w) L == Listed(Faces(C, X)) IN
  [kind |-> kind, G |-> G, C |-> C, X |-> X, nc |-> Count(d),
   k |-> [c \in DOMAIN C |-> [e \in 1..3 |-> 1 + 2 * H(y, 3 * c + e, 2)]],
   phi4 |-> [c \in DOMAIN C |-> 1 + H(y, 2 * c, 4)],
   bf |-> [j \in DOMAIN L |-> [x |-> L[j], t |-> IF Uniform THEN y % 3 ELSE H(y, j, 3), p |-> Nth(Pres, H(y, j + 1, Cardinality(Pres)))]]]
Choose == /\ n = 0
          /\ \E d \in Pick(Dims3), w \in Pick(Widths), kind \in Pick(Kinds), G \in Pick(Gs), y \in Pick(IF Sim THEN 0..9999 ELSE 0..5) :
               /\ g' = Medium0(d, w, kind, G, y)
               /\ Go([e |-> "medium", g |-> g'])
          /\ UNCHANGED vars
Opens(bp, bt, ot) == /\ n > 0 /\ run = NoRun /\ Go([e |-> "open", bp |-> bp, bt |-> bt, ot |-> ot])
                     /\ Open(Problem(g.kind, 0, 1, g.G, g.C, g.X, g.k, g.phi4, g.bf, bp, bt, ot)) /\ UNCHANGED g
GClosed == base = {} /\ \E bp \in Pick({TRUE, FALSE}) : Opens(bp, FALSE, 1)
\* (the two-point scheme has a kind for each face, the others one for the whole boundary)
GFaces == base # {} /\ g.kind = 4 /\ Opens(TRUE, TRUE, 1)
GWhole == base # {} /\ \E bp \in Pick({TRUE, FALSE}), ot \in Pick({0, 2}) : Opens(bp, FALSE, ot)
States == [1..g.nc -> Levels]
\* random states: any, nearly still, or one that was used before
At(y, c) == IF y % 3 = 0 THEN Nth(Levels, H(y, c, Cardinality(Levels)))
            ELSE IF y % 3 = 1 THEN 1000 - g.G * (Min({g.X[g.C[c][j] + 1][3] : j \in 1..8}) + (y % 2)) + (IF H(y, c, 4) = 0 THEN -3 + H(y, c + 1, 7) ELSE 0)
            ELSE IF H(y, c, 5) = 0 THEN -900 ELSE IF H(y, c, 5) = 1 THEN -1600 ELSE 100 * H(y, c + 1, 9)
Random(y) == [c \in 1..g.nc |-> At(y, c)]
Chosen == IF Sim THEN {Random(y) : y \in Pick(0..9999)} ELSE States
GPrev == /\ run # NoRun /\ prev = <<>>
         /\ \E u \in (IF base # {} THEN Pick({b.v : b \in base}) ELSE Chosen) : Go([e |-> "prev", u |-> u]) /\ Prev(u)
         /\ UNCHANGED g
GRes == /\ run # NoRun /\ prev # <<>> /\ (~Sim /\ Closed => base = {})
        /\ \E u \in (IF Closed THEN Chosen ELSE Pick({b.u : b \in {b \in base : b.v = prev}})) :
             Go([e |-> "res", u |-> u]) /\ Answer(u, Residual(u, prev), TRUE, Residual(u, prev))
        /\ UNCHANGED g
GJac == /\ run # NoRun /\ prev # <<>> /\ \E u \in Chosen : Go([e |-> "jac", u |-> u]) /\ AnswerJ(u, Jacobian(u), TRUE, Jacobian(u))
        /\ UNCHANGED g
GClose == base # {} /\ Go([e |-> "close"]) /\ Close /\ UNCHANGED g
GNext == Choose \/ GClosed \/ GFaces \/ GWhole \/ GPrev \/ GRes \/ GJac \/ GClose
GSpec == GInit /\ [][GNext]_gvars
----
(* What holds for the scheme. *)
Live == run # NoRun /\ prev # <<>> /\ ~Sim
AllCells(f(_)) == MapThenSumSet(f, Cells)
\* what leaves a cell arrives in another or leaves the domain
Conserves == Live => AllCells(LAMBDA c : Residual(prev, prev)[c]) = AllCells(LAMBDA c : LeavesB(c, prev))
\* nothing moves in a liquid at rest
Still == Live /\ Closed => LET u == [c \in Cells |-> 1000 - run.G * ((run.B[c].lo[3] + run.B[c].hi[3]) \div 2)] IN Residual(u, u) = [c \in Cells |-> 0]
\* no liquid enters through a seepage face from outside air
Seeps == Live => \A f \in run.outer : (f.t = 2 /\ PB(f, prev) <= 0 => RateB(f, prev) >= 0) /\ (f.t = 1 => RateB(f, prev) = 0)
\* a face passes liquid down the gradient of the head
Down == Live => \A f \in run.outer : f.t = 0 => (RateB(f, prev) > 0) = (HeadB(f, prev) > 0)
\* the derivative: only of neighbours, pressure drives out, and what leaves one arrives in another
Derivative ==
  Live => \A j \in Cells :
    /\ \A c \in Cells \ {j} : dResidual(prev, c, j) <= 0 /\ (c \notin Neighbours(run.C, 4, j) => dResidual(prev, c, j) = 0)
    /\ dResidual(prev, j, j) >= 0
    /\ Closed => AllCells(LAMBDA c : dResidual(prev, c, j)) = 200 * ((run.phi4[j] * Volume(run.B[j]) * dS(prev[j])) \div 4)
\* between saturated states with the same upwind cells the residual is linear
Linear ==
  Live /\ (\A c \in Cells : prev[c] >= 0) /\ ~Tie(prev) => \A j \in Cells :
    LET v == [prev EXCEPT ![j] = @ + 1] IN
    (\A f \in run.outer : f.t = 1 \/ (f.p # Own /\ f.p >= 0 /\ Shut(f, v) = Shut(f, prev))) =>
      \A c \in Cells : 2500 * (Residual(v, prev)[c] - Residual(prev, prev)[c]) = dResidual(prev, c, j)
Emit == n = MaxOps => PrintT("SCEN " \o ToJson(hist))
==============================================================================
