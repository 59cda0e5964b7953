-------------------------------- MODULE Flux --------------------------------
(* The discrete problem of one step: what flows between cells and through the
   boundary, what cells store, and how the residual of a cell changes with the
   pressures. On grids of boxes with diagonal permeabilities, a liquid of constant
   density and viscosity, and pressures on a lattice where the curves have rational
   values, everything is an integer:

     u        pressure - reference pressure; -900, -1600 or not negative
     Se       25 * the saturation: 25, 20 (at -900), 15 (at -1600)
     Kr       25 * the relative permeability (its square): 25, 16, 9
     residual 50 * mass rate / density
     Jacobian 125000 * its derivative
     k        permeability / viscosity, 1 or 3 in each direction
     phi4     4 * porosity;   G   density * gravity;   step of 1/100

   For other meshes and liquids the rules on sums, reach and processes are kept. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANT Rules
VARIABLES run,    \* the problem that is open
          prev,   \* the state the step starts from
          base    \* what a closed domain answers: states, previous states, residuals
vars == <<run, prev, base>>
Se(d) == IF d >= 0 THEN 25 ELSE IF d = -900 THEN 20 ELSE 15
Kr(d) == IF d >= 0 THEN 25 ELSE IF d = -900 THEN 16 ELSE 9
dS(d) == IF d >= 0 THEN 0 ELSE IF d = -900 THEN 20 ELSE 15      \* per 62500
dK(d) == IF d >= 0 THEN 0 ELSE IF d = -900 THEN 32 ELSE 18      \* per 62500
Abs(x) == IF x < 0 THEN -x ELSE x
----
(* Grids: cells are boxes [lo, hi] *)
Dims == 1..3
BoxOf(c, X) ==
  LET at(d) == {X[c[j] + 1][d] : j \in DOMAIN c}
  IN [lo |-> [d \in Dims |-> Min(at(d))], hi |-> [d \in Dims |-> Max(at(d))]]
Wid(b, d) == b.hi[d] - b.lo[d]
Area(b, d) == CASE d = 1 -> Wid(b, 2) * Wid(b, 3) [] d = 2 -> Wid(b, 1) * Wid(b, 3) [] OTHER -> Wid(b, 1) * Wid(b, 2)
Volume(b) == Wid(b, 1) * Wid(b, 2) * Wid(b, 3)
Beside(a, b, d) == a.hi[d] = b.lo[d] /\ \A e \in Dims \ {d} : a.lo[e] = b.lo[e] /\ a.hi[e] = b.hi[e]
\* the faces between cells: a below b in direction d
Between(B) == {f \in (DOMAIN B) \X (DOMAIN B) \X Dims : f[1] # f[2] /\ Beside(B[f[1]], B[f[2]], f[3])}
\* twice the conductance of half cells in series
Series(B, k, a, b, d) ==
  (4 * Area(B[a], d) * k[a][d] * k[b][d]) \div (Wid(B[a], d) * k[b][d] + Wid(B[b], d) * k[a][d])
Inner(B, k) == {[a |-> f[1], b |-> f[2], c2 |-> Series(B, k, f[1], f[2], f[3]),
                 dz |-> IF f[3] = 3 THEN (Wid(B[f[1]], 3) + Wid(B[f[2]], 3)) \div 2 ELSE 0] : f \in Between(B)}
Middle(b, d, s) == [e \in Dims |-> IF e = d THEN (IF s = 1 THEN b.hi[e] ELSE b.lo[e]) ELSE (b.lo[e] + b.hi[e]) \div 2]
Outside(B) ==
  LET I == Between(B)
  IN {f \in (DOMAIN B) \X Dims \X {-1, 1} : ~\E g \in I : g[3] = f[2] /\ (IF f[3] = 1 THEN g[1] ELSE g[2]) = f[1]}
\* kind of a boundary face: 0 fixed pressure, 1 closed, 2 seepage
Outer(B, k, kind(_), pres(_)) ==
  {[c |-> f[1], at |-> <<f[2], f[3]>>, c2 |-> (4 * Area(B[f[1]], f[2]) * k[f[1]][f[2]]) \div Wid(B[f[1]], f[2]),
    dz |-> IF f[2] = 3 THEN (f[3] * Wid(B[f[1]], 3)) \div 2 ELSE 0,
    t |-> kind(Middle(B[f[1]], f[2], f[3])), p |-> pres(Middle(B[f[1]], f[2], f[3]))] : f \in Outside(B)}
----
(* The model *)
Own == 999999   \* no boundary pressure is set: the pressure of the cell
Head2(f, u) == u[f.a] - u[f.b] - run.G * f.dz
Up(f, u) == IF Head2(f, u) >= 0 THEN f.a ELSE f.b
Rate(f, u) == f.c2 * Kr(u[Up(f, u)]) * Head2(f, u)          \* from a to b
PB(f, u) == IF f.p = Own THEN u[f.c] ELSE f.p
HeadB(f, u) == u[f.c] - PB(f, u) - run.G * f.dz
Shut(f, u) == f.t = 1 \/ (f.t = 2 /\ HeadB(f, u) <= 0 /\ PB(f, u) <= 0)
RateB(f, u) == IF Shut(f, u) THEN 0
               ELSE f.c2 * (IF HeadB(f, u) > 0 THEN Kr(u[f.c]) ELSE Kr(PB(f, u))) * HeadB(f, u)   \* out of the domain
Stored(c, u) == 200 * ((run.phi4[c] * Volume(run.B[c]) * Se(u[c])) \div 4)
Leaves(c, u) == MapThenSumSet(LAMBDA f : IF f.a = c THEN Rate(f, u) ELSE -Rate(f, u), {f \in run.inner : f.a = c \/ f.b = c})
LeavesB(c, u) == MapThenSumSet(LAMBDA f : RateB(f, u), {f \in run.outer : f.c = c})
Cells == DOMAIN run.B
Gain(c, u, v) == Stored(c, u) - Stored(c, v)
Residual(u, v) == [c \in Cells |-> Leaves(c, u) + LeavesB(c, u) + Gain(c, u, v)]
Boundary(u) == [c \in Cells |-> LeavesB(c, u)]
\* derivatives: of the outflow of c by the pressure of j
dRate(f, u, j) ==
  f.c2 * ((IF j = f.a THEN 2500 * Kr(u[Up(f, u)]) ELSE IF j = f.b THEN -(2500 * Kr(u[Up(f, u)])) ELSE 0)
          + (IF j = Up(f, u) THEN dK(u[j]) * Head2(f, u) ELSE 0))
dRateB(f, u) ==
  IF Shut(f, u) THEN 0
  ELSE f.c2 * (IF HeadB(f, u) > 0 THEN 2500 * Kr(u[f.c]) + dK(u[f.c]) * HeadB(f, u) ELSE 2500 * Kr(PB(f, u)))
dResidual(u, c, j) ==
  MapThenSumSet(LAMBDA f : IF f.a = c THEN dRate(f, u, j) ELSE -dRate(f, u, j), {f \in run.inner : (f.a = c \/ f.b = c) /\ (f.a = j \/ f.b = j)})
  + (IF c # j THEN 0 ELSE MapThenSumSet(LAMBDA f : dRateB(f, u), {f \in run.outer : f.c = c})
                          + 200 * ((run.phi4[c] * Volume(run.B[c]) * dS(u[c])) \div 4))
Jacobian(u) == {<<c, j, dResidual(u, c, j)>> : c \in Cells, j \in Cells} \ {<<c, j, 0>> : c \in Cells, j \in Cells}
\* states where the derivative is not defined: a face about to open or to turn its flow
Tie(u) == \/ \E f \in run.outer : f.t # 1 /\ HeadB(f, u) = 0 /\ (f.t = 2 \/ Kr(PB(f, u)) # Kr(u[f.c]))
          \/ \E f \in run.inner : Head2(f, u) = 0 /\ Kr(u[f.a]) # Kr(u[f.b])
----
(* Who can feel a change: with two-point fluxes the cells that share a face,
   with multi-point fluxes the cells that share a vertex. *)
Shares(C, a, b) == Cardinality({C[a][j] : j \in DOMAIN C[a]} \cap {C[b][j] : j \in DOMAIN C[b]})
Neighbours(C, kind, a) == {b \in DOMAIN C : b = a \/ Shares(C, a, b) >= (IF kind = 4 THEN 3 ELSE 1)}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
----
NoRun == [kind |-> -1]
Elems(s) == {s[j] : j \in DOMAIN s}
\* a problem on boxes. bf: kinds and pressures of the faces of the boundary, used
\* if they are given (bt, bp); ot: the kind of the whole boundary otherwise.
\* Meshes from files have closed boundaries.
Problem(kind, src, np, G, C, X, k, phi4, bf, bp, bt, ot) ==
  LET B == [c \in DOMAIN C |-> BoxOf(C[c], X)]
      at(x) == CHOOSE f \in Elems(bf) : f.x = x
      t(x) == IF src = 1 THEN 1 ELSE IF bt THEN at(x).t ELSE ot
      p(x) == IF bp THEN at(x).p ELSE Own
  IN [kind |-> kind, lattice |-> TRUE, np |-> np, G |-> G, B |-> B, k |-> k, phi4 |-> phi4, C |-> C,
      inner |-> Inner(B, k), outer |-> Outer(B, k, t, p)]
\* any other problem: only the cells are known
Unknown(kind, np, C) == [kind |-> kind, lattice |-> FALSE, np |-> np, C |-> C, outer |-> {}]
Init == run = NoRun /\ prev = <<>> /\ base = {}
Open(r) == run = NoRun /\ run' = r /\ prev' = <<>> /\ UNCHANGED base
Close == run # NoRun /\ run' = NoRun /\ prev' = <<>> /\ UNCHANGED base
Prev(u) == run # NoRun /\ prev' = u /\ UNCHANGED <<run, base>>
Medium == <<run.kind, run.G, run.B, run.k, run.phi4>>
Closed == \A f \in run.outer : f.t = 1
\* nothing drives a flow through the faces of c
Quiet(c, u) == (\A f \in run.inner : f.a = c \/ f.b = c => Head2(f, u) = 0) /\ \A f \in run.outer : f.c = c => f.t = 1 \/ HeadB(f, u) = 0
\* the code's answer r to the state u; ref is its answer on one process
Answer(u, r, ok, ref) ==
  /\ run # NoRun /\ run.lattice /\ prev # <<>>
  /\ ok
  /\ ("darcy" \in Rules => r = Residual(u, prev))
  /\ (Rules \cap {"sum", "bc"} # {} /\ Closed => SumSeq(r) = SumSeq([c \in Cells |-> Gain(c, u, prev)]))
  /\ ("sum" \in Rules => \A c \in Cells : Quiet(c, u) => r[c] = Gain(c, u, prev))
  /\ ("bc" \in Rules => Closed \/ \E b \in base : b.m = Medium /\ b.u = u /\ b.v = prev /\ \A c \in Cells : r[c] - b.r[c] = Boundary(u)[c])
  /\ ("same" \in Rules => r = ref)
  /\ base' = (IF Closed THEN base \cup {[m |-> Medium, u |-> u, v |-> prev, r |-> r]} ELSE base)
  /\ UNCHANGED <<run, prev>>
AnswerJ(u, J, ok, ref) ==
  /\ run # NoRun /\ run.lattice /\ ok
  /\ ("darcy" \in Rules /\ ~Tie(u) => J = Jacobian(u))
  /\ ("same" \in Rules /\ ~Tie(u) => J = ref)
  /\ UNCHANGED vars
\* def: parts in 10^12 of the flow that is lost or gained in a closed domain
Balance(def, flow, ok, q, ref) ==
  /\ run # NoRun /\ ok
  /\ ("sum" \in Rules /\ flow => \A d \in DOMAIN def : def[d] <= 1000)
  /\ ("same" \in Rules => Len(q) = Len(ref) /\ \A i \in DOMAIN q : Abs(q[i] - ref[i]) <= 20)
  /\ UNCHANGED vars
Reach(c, moved, ok) ==
  /\ run # NoRun /\ ok
  /\ ("sum" \in Rules => moved \subseteq Neighbours(run.C, run.kind, c))
  /\ UNCHANGED vars
\* err: parts in 10^6 by which entries of the Jacobian differ from differences of residuals
Differences(err, ok) ==
  /\ run # NoRun /\ ok
  /\ ("darcy" \in Rules => err <= 1000)
  /\ UNCHANGED vars
\* sol: in thousandths; lost: parts in 10^9 of the mass
Steps(sol, ref, steps, rsteps, lost, ok) ==
  /\ run # NoRun /\ ok
  /\ ("sum" \in Rules => lost <= 100)
  /\ ("same" \in Rules => steps = rsteps /\ Len(sol) = Len(ref) /\ \A i \in DOMAIN sol : Abs(sol[i] - ref[i]) <= 100)
  /\ UNCHANGED vars
=============================================================================
