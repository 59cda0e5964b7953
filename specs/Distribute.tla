----------------------------- MODULE Distribute ----------------------------
(* C12, C13, C15 (unstructured grids): a grid read from a file is spread over
   processes. part[i] is the process of cell i-1. What the processes then hold:
     T[r+1] = [nl, ng   owned and borrowed cells
               off      number of the first owned cell
               nat      input identifiers of owned, then borrowed cells
               pet      numbers of owned, then borrowed cells
               vn, vx   input identifiers and coordinates of its vertices
               cv       for each cell its vertices (positions in vn, from 0)
               nb       for each owned cell its neighbours (positions in nat,
                        from 0; negated if borrowed)]                        *)
EXTENDS Grid, TLC
CONSTANTS Rules
VARIABLES grid,   \* the input: [C, X, part, np, fs (faces of the cells), nb (their neighbours)]
          tab     \* what the processes hold, after loading
dvars == <<grid, tab>>
None == [none |-> TRUE]
DInit == grid = None /\ tab = <<>>
Rule(r, p) == r \in Rules => p
Cells(g) == 0..(Len(g.C) - 1)
Owned(g, r) == {i \in Cells(g) : g.part[i + 1] = r}
NbOf(g, i) == g.nb[i + 1]
MkGrid(C, X, part, np) == LET fs == AllFaces(C) IN
  [C |-> C, X |-> X, part |-> part, np |-> np, fs |-> fs, nb |-> [i \in DOMAIN C |-> {j - 1 : j \in Neighbours(fs, i)}]]
Borrowed(g, r) == UNION {NbOf(g, i) : i \in Owned(g, r)} \ Owned(g, r)
NoRepeat(s) == Cardinality(Range(s)) = Len(s)
NatOf(t, k) == t.nat[k + 1]
\* number of every cell, as its owner gives it
NumberOf(g, T) == [i \in Cells(g) |-> LET t == T[g.part[i + 1] + 1] IN LET k == CHOOSE k \in 1..t.nl : t.nat[k] = i IN t.off + k - 1]
OwnersOk(g, T) ==
  /\ Len(T) = g.np /\ \A i \in DOMAIN g.part : g.part[i] \in 0..(g.np - 1)
  /\ \A r \in 1..g.np : /\ T[r].nl = Cardinality(Owned(g, r - 1)) /\ Len(T[r].nat) = T[r].nl + T[r].ng
                        /\ {T[r].nat[k] : k \in 1..T[r].nl} = Owned(g, r - 1)
NumbersOk(g, T) == LET num == NumberOf(g, T) IN
  \A r \in 1..g.np : /\ T[r].off = SumOf([q \in 1..(r - 1) |-> T[q].nl])
                     /\ Len(T[r].pet) = Len(T[r].nat) /\ \A k \in DOMAIN T[r].pet : T[r].pet[k] = num[T[r].nat[k]]
BorrowedOk(g, T) == \A r \in 1..g.np : NoRepeat(T[r].nat) /\ {T[r].nat[k] : k \in (T[r].nl + 1)..Len(T[r].nat)} = Borrowed(g, r - 1)
ShapesOk(g, T) == \A r \in 1..g.np :
  /\ NoRepeat(T[r].vn) /\ Range(T[r].vn) = UNION {Range(g.C[T[r].nat[k] + 1]) : k \in DOMAIN T[r].nat}
  /\ Len(T[r].vx) = Len(T[r].vn) /\ \A v \in DOMAIN T[r].vn : T[r].vx[v] = At(g.X, T[r].vn[v])
  /\ Len(T[r].cv) = Len(T[r].nat)
  /\ \A k \in DOMAIN T[r].cv : [j \in DOMAIN T[r].cv[k] |-> T[r].vn[T[r].cv[k][j] + 1]] = g.C[T[r].nat[k] + 1]
NeighboursOk(g, T) == \A r \in 1..g.np :
  /\ Len(T[r].nb) = T[r].nl
  /\ \A k \in 1..T[r].nl : /\ NoRepeat(T[r].nb[k])
                           /\ {T[r].nat[Abs(T[r].nb[k][j]) + 1] : j \in DOMAIN T[r].nb[k]} = NbOf(g, T[r].nat[k])
                           /\ \A j \in DOMAIN T[r].nb[k] : (T[r].nb[k][j] < 0) <=> (Abs(T[r].nb[k][j]) >= T[r].nl)
Distributed(g, T) == OwnersOk(g, T) /\ NumbersOk(g, T) /\ BorrowedOk(g, T) /\ ShapesOk(g, T) /\ NeighboursOk(g, T)
----------------------------------------------------------------------------
\* C15: the mesh built on every process from this
CellsOk(g, t, m) ==
  /\ Len(m.vol) = Len(t.nat) /\ Len(m.cen) = Len(t.nat) /\ m.nl = t.nl /\ m.nat = t.nat
  /\ \A k \in DOMAIN t.nat : /\ m.vol[k] = Vol6(g.X, g.C[t.nat[k] + 1]) /\ m.cen[k] = Mean120(g.X, g.C[t.nat[k] + 1])
                             /\ m.loc[k] = (k <= t.nl)
\* the face (sequence of corners) two cells share
Shared(g, a, b) == LET F == FacesOf(g.C[a + 1]) IN F[CHOOSE i \in DOMAIN F : Range(F[i]) \in g.fs[b + 1]]
FaceOk(g, t, f) ==
  /\ Len(f.c) = 2 /\ \A i \in 1..2 : f.c[i] \in 0..(Len(t.nat) - 1)
  /\ LET a == t.nat[f.c[1] + 1] b == t.nat[f.c[2] + 1] IN
     /\ b \in NbOf(g, a)
     /\ LET s == Shared(g, a, b)
            A == Area2(g.X, s)
            u == Mean120(g.X, g.C[a + 1])
            D == Minus(Mean120(g.X, g.C[b + 1]), u)
            AD == Dot(A, D)
            t1 == Dot(A, Minus(Scale(120, At(g.X, s[1])), u)) IN
        /\ Range([j \in DOMAIN f.v |-> t.vn[f.v[j] + 1]]) = Range(s) /\ Len(f.v) = Len(s) /\ f.n = Len(s)
        /\ f.area4 = Dot(A, A)                                     \* 4 area^2
        /\ f.dist2 = Dot(D, D)                                     \* (120 distance)^2
        /\ f.pad = Abs(AD)                                         \* projected area * distance
        /\ Abs(f.wt * AD - 10000 * t1) <= Abs(AD)                  \* share of the distance on the first side
        /\ Abs(f.up * 10000 - f.wt * f.dist) <= 20000 + f.dist /\ Abs(f.up + f.dn - f.dist) <= 2
        /\ \A i \in 1..3 : Abs(f.uv[i] * f.dist * 3 - D[i] * 250000) <= 30000 + 2 * f.dist
MeshFacesOk(g, t, m) ==
  /\ \A k \in DOMAIN m.faces : FaceOk(g, t, m.faces[k])
  /\ LET P == [k \in DOMAIN m.faces |-> {t.nat[m.faces[k].c[1] + 1], t.nat[m.faces[k].c[2] + 1]}] IN
     NoRepeat(P) /\ Range(P) = UNION {{{a, b} : b \in NbOf(g, a)} : a \in {t.nat[k] : k \in 1..t.nl}}
\* all faces of the owned cells, once each: corners, mean of corners, area
AllFacesOk(g, t, m) ==
  LET Own == UNION {g.fs[t.nat[k] + 1] : k \in 1..t.nl}
      S == [k \in DOMAIN m.all |-> Range([j \in DOMAIN m.all[k].v |-> t.vn[m.all[k].v[j] + 1]])]
      Mine == {k \in DOMAIN m.all : S[k] \in Own} IN
  /\ {S[k] : k \in Mine} = Own /\ Cardinality(Mine) = Cardinality(Own)
  /\ \A k \in Mine : LET w == [j \in DOMAIN m.all[k].v |-> t.vn[m.all[k].v[j] + 1]] A == Area2(g.X, w) IN
       m.all[k].area4 = Dot(A, A) /\ m.all[k].cen = Mean120(g.X, w)
MeshOk(g, T, M) == \A r \in 1..g.np : CellsOk(g, T[r], M[r]) /\ MeshFacesOk(g, T[r], M[r]) /\ AllFacesOk(g, T[r], M[r])
----------------------------------------------------------------------------
\* C12: moving nd values per cell between the orders; vectors are given per process
Flat(V, nd) == LET RECURSIVE F(_) F(r) == IF r > Len(V) THEN <<>> ELSE V[r] \o F(r + 1) IN F(1)
\* natural vectors are filled by global position i with the value v[i+1]
GlobalOf(g, T, nat, nd) == \* what the global vector must be if the natural vector (all processes together) is nat
  [r \in 1..g.np |-> [j \in 1..(T[r].nl * nd) |-> nat[T[r].nat[(j - 1) \div nd + 1] * nd + ((j - 1) % nd) + 1]]]
LocalOf(g, T, glo, nd) ==
  [r \in 1..g.np |-> [j \in 1..(Len(T[r].nat) * nd) |-> Flat(glo, nd)[T[r].pet[(j - 1) \div nd + 1] * nd + ((j - 1) % nd) + 1]]]
MoveOk(op, nd, in, out) ==
  /\ Len(out) = grid.np
  /\ op = "n2g" => out = GlobalOf(grid, tab, Flat(in, nd), nd)
  /\ op = "g2n" => in = GlobalOf(grid, tab, Flat(out, nd), nd) /\ Len(Flat(out, nd)) = Len(Flat(in, nd))
  /\ op = "g2l" => out = LocalOf(grid, tab, in, nd)
  /\ op = "n2l" => out = LocalOf(grid, tab, GlobalOf(grid, tab, Flat(in, nd), nd), nd)
  /\ op = "l2g" => out = [r \in 1..grid.np |-> SubSeq(in[r], 1, tab[r].nl * nd)]
Move(op, nd, in, out, ok) ==
  /\ UNCHANGED dvars
  /\ Rule("move", ok)
  /\ Rule("move", grid.ok => MoveOk(op, nd, in, out))
----------------------------------------------------------------------------
Load(C, X, part, np, T, M, ok) ==
  LET g == MkGrid(C, X, part, np) IN
  /\ Rules # {} => ok
  /\ grid' = [ok |-> Rules # {} /\ Distributed(g, T)] @@ g /\ tab' = T
  /\ Rule("distribute", grid'.ok)
  /\ Rule("once", OwnersOk(g, T) /\ NumbersOk(g, T))
  /\ Rule("mesh", grid'.ok => MeshOk(g, T, M))
============================================================================
