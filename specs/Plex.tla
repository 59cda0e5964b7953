-------------------------------- MODULE Plex -------------------------------
(* C12, C15 (meshes held by PETSc): the same grid spread over processes with
   the cells that share a vertex with an owned cell borrowed, and the tables
   of the mesh built on each process. Reported per process on loading:
     T[r+1] = [dof, own, pet   unknowns, ownership and number of each cell
               v               coordinates of its corners]
   and after setup M[r+1]: cells, faces, verts, edges (see harness/mesh.c);
   local numbers count from 0. ids[r+1][k] is the input cell of local cell k-1. *)
EXTENDS Distribute
VARIABLES ids, tabs   \* input identifiers of the local cells, and the tables as reported
pvars == <<dvars, ids, tabs>>
PInit == DInit /\ ids = <<>> /\ tabs = <<>>
CoordSet(g, i) == {At(g.X, v) : v \in Range(g.C[i + 1])}
IdOf(g, cs, x) == LET S == {i \in Cells(g) : cs[i] = Range(x)} IN IF S = {} THEN -1 ELSE CHOOSE i \in S : TRUE
IdsOf(g, T) == LET cs == [i \in Cells(g) |-> CoordSet(g, i)] IN [r \in DOMAIN T |-> [k \in DOMAIN T[r].v |-> IdOf(g, cs, T[r].v[k])]]
Touching(g, r) == LET V == UNION {Range(g.C[i + 1]) : i \in Owned(g, r)} IN {i \in Cells(g) : Range(g.C[i + 1]) \cap V # {}} \ Owned(g, r)
NumOwned(t) == Cardinality({k \in DOMAIN t.own : t.own[k]})
\* the same tables, in the form of Distribute
TabsOf(T, id, nd) ==
  [r \in DOMAIN T |-> [nl |-> NumOwned(T[r]), ng |-> Len(T[r].own) - NumOwned(T[r]), nat |-> id[r],
                       off |-> SumOf([q \in 1..(r - 1) |-> NumOwned(T[q])]), pet |-> [k \in DOMAIN T[r].pet |-> T[r].pet[k] \div nd]]]
OnceOk(g, T, id, nd) ==
  /\ \A r \in DOMAIN T : /\ \A k \in DOMAIN T[r].dof : T[r].dof[k] = nd /\ T[r].pet[k] % nd = 0
                         /\ \A k \in DOMAIN id[r] : id[r][k] >= 0
                         /\ \A k \in DOMAIN T[r].own : T[r].own[k] <=> k <= NumOwned(T[r])     \* owned cells first
  /\ LET S == TabsOf(T, id, nd) IN OwnersOk(g, S) /\ NumbersOk(g, S)
GhostsOk(g, T, id, nd) == LET S == TabsOf(T, id, nd) IN \A r \in 1..g.np : NoRepeat(S[r].nat) /\ {S[r].nat[k] : k \in (S[r].nl + 1)..Len(S[r].nat)} = Touching(g, r - 1)
PLoad(C, X, part, np, nd, T, ok) ==
  LET g == MkGrid(C, X, part, np) IN
  /\ Rules # {} => ok
  /\ ids' = (IF ok THEN IdsOf(g, T) ELSE <<>>)
  /\ LET fine == ok /\ OnceOk(g, T, ids', nd) IN
     /\ grid' = [ok |-> fine /\ GhostsOk(g, T, ids', nd)] @@ g
     /\ tab' = IF fine THEN TabsOf(T, ids', nd) ELSE <<>>
     /\ Rule("once", fine)
     /\ Rule("once", grid'.ok) /\ Rule("mesh", grid'.ok)
  /\ tabs' = T
----------------------------------------------------------------------------
\* C15
EdgeIx == [k \in {4, 6, 8} |-> UNION {{{Corners[k][i][j], Corners[k][i][(j % Len(Corners[k][i])) + 1]} : j \in DOMAIN Corners[k][i]} : i \in DOMAIN Corners[k]}]
EdgesOf(c) == {{c[i] : i \in e} : e \in EdgeIx[Len(c)]}
Local(n, s) == \A i \in DOMAIN s : s[i] \in 0..(n - 1)
VertexOf(g, x) == LET S == {v \in DOMAIN g.X : g.X[v] = x} IN IF S = {} THEN -1 ELSE (CHOOSE v \in S : TRUE) - 1
Names(vn, s) == [j \in DOMAIN s |-> vn[s[j] + 1]]
Det(a, b, c) == Dot(Cross(a, b), c)
\* (the list of the edges of a triangle is filled up with -1)
EdgesIn(f) == SelectSeq(f.e, LAMBDA e : e # -1)
\* the numbers used below, and that all references stay within the tables
ReferencesOk(m) ==
  LET nc == Len(m.cells) nf == Len(m.faces) nv == Len(m.verts) ne == Len(m.edges) IN
  /\ \A k \in DOMAIN m.cells : /\ Local(nv, m.cells[k].v) /\ Local(ne, m.cells[k].e) /\ Local(nf, m.cells[k].f)
                               /\ \A s \in DOMAIN m.cells[k].sub : Local(nf, m.cells[k].sub[s].f)
  /\ \A k \in DOMAIN m.faces : Local(nv, m.faces[k].v) /\ Local(ne, EdgesIn(m.faces[k])) /\ m.faces[k].c[2] \in 0..(nc - 1) /\ m.faces[k].c[1] < nc
  /\ \A k \in DOMAIN m.verts : Local(nc, m.verts[k].c) /\ Local(nf, m.verts[k].f) /\ Local(nf, m.verts[k].b) /\ Local(ne, m.verts[k].e)
  /\ \A k \in DOMAIN m.edges : Local(nv, m.edges[k].v)
PCellsOk(g, nat, nl, m, vn, fs, es) ==
  /\ m.nat = nat /\ m.nl = nl /\ m.isl = [k \in DOMAIN nat |-> k <= nl] /\ Len(m.cells) = Len(nat)
  /\ \A k \in DOMAIN nat : LET c == m.cells[k] in == g.C[nat[k] + 1] IN
       /\ c.id = k - 1 /\ c.nat = nat[k] /\ c.loc = (k <= nl)
       /\ c.vol = Vol6(g.X, in) /\ c.cen = Mean120(g.X, in)
       /\ NoRepeat(c.v) /\ Range(Names(vn, c.v)) = Range(in)
       /\ NoRepeat(c.f) /\ {fs[f + 1] : f \in Range(c.f)} = g.fs[nat[k] + 1]
       /\ NoRepeat(c.e) /\ {es[x + 1] : x \in Range(c.e)} = EdgesOf(in)
VerticesOk(g, nat, nl, m, vn) ==
  /\ NoRepeat(vn) /\ Range(vn) = UNION {Range(g.C[i + 1]) : i \in Range(nat)}
  /\ \A v \in DOMAIN m.verts : LET x == m.verts[v] IN
       /\ x.loc = (\E k \in 1..nl : vn[v] \in Range(g.C[nat[k] + 1]))
       /\ NoRepeat(x.c) /\ Range(x.c) = {k - 1 : k \in {k \in DOMAIN nat : vn[v] \in Range(g.C[nat[k] + 1])}}
       /\ Len(x.s) = Len(x.c) /\ \A j \in DOMAIN x.c : LET c == m.cells[x.c[j] + 1] IN x.s[j] \in 0..(Len(c.v) - 1) /\ c.v[x.s[j] + 1] = v - 1
       /\ NoRepeat(x.f) /\ Range(x.f) = {f - 1 : f \in {f \in DOMAIN m.faces : v - 1 \in Range(m.faces[f].v)}}
       /\ Len(x.sf) = Len(x.f) /\ \A j \in DOMAIN x.f : LET f == m.faces[x.f[j] + 1] IN x.sf[j] \in 0..(Len(f.v) - 1) /\ f.v[x.sf[j] + 1] = v - 1
       /\ NoRepeat(x.b) /\ Range(x.b) = {f \in Range(x.f) : m.faces[f + 1].nc = 1}
       /\ NoRepeat(x.e) /\ Range(x.e) = {e - 1 : e \in {e \in DOMAIN m.edges : v - 1 \in Range(m.edges[e].v)}}
EdgesOk(g, nat, m, vn, es) ==
  /\ NoRepeat(es) /\ Range(es) = UNION {EdgesOf(g.C[i + 1]) : i \in Range(nat)}
  /\ \A e \in DOMAIN m.edges : LET w == Names(vn, m.edges[e].v) D == Minus(At(g.X, w[1]), At(g.X, w[2])) IN
       m.edges[e].cen = Plus(At(g.X, w[1]), At(g.X, w[2])) /\ m.edges[e].len2 = Dot(D, D)
\* the face of cell in with these corners, as a sequence, outward
FaceSeq(in, S) == LET F == FacesOf(in) IN F[CHOOSE i \in DOMAIN F : Range(F[i]) = S]
\* inner faces: distances along the line between the centres
InnerOk(f, D, AD, t1, dist) ==
  /\ Abs(f.wt * AD - 10000 * t1) <= Abs(AD)
  /\ Abs(f.up * 10000 - f.wt * dist) <= 20000 + dist
  /\ \A i \in 1..3 : Abs(f.uv[i] * dist * 3 - D[i] * 250000) <= 60000 + 6 * dist
  /\ Abs(f.pa * dist * 24 - AD * 100000) <= 24 * (dist + f.pa + 2)
\* faces of one cell: the distance is the one to the plane of the face
RimOk(f, A, AD) ==
  LET A2 == Dot(A, A) h == (AD * 25) \div 3 IN
  /\ f.wt = 0 /\ f.up = 0 /\ AD > 0
  /\ Abs(f.dn * f.dn * A2 - h * h) <= (2 * f.dn + 2) * A2 + 2 * h + 2
  /\ Abs(4 * f.pa * f.pa - 1000000 * A2) <= 8 * f.pa + 8
  /\ \A i \in 1..3 : LET u == f.uv[i] \div 10 IN
       /\ Abs(u * u * A2 - 1000000 * A[i] * A[i]) <= (2 * Abs(u) + 2) * A2
       /\ (A[i] = 0 => u = 0) /\ (A[i] > 0 => u > 0) /\ (A[i] < 0 => u < 0)
PFaceOk(g, nat, nl, m, k, S, es) ==
  LET f == m.faces[k]
      own == {c \in DOMAIN nat : S \in g.fs[nat[c] + 1]}
      b == f.c[2] + 1
      s == FaceSeq(g.C[nat[b] + 1], S)
      A == Scale(-1, Area2(g.X, s))                       \* into the second cell
      xf == Mean120(g.X, s)
      x2 == Mean120(g.X, g.C[nat[b] + 1])
      x1 == IF Cardinality(own) = 2 THEN Mean120(g.X, g.C[nat[f.c[1] + 1] + 1]) ELSE xf
      D == Minus(x2, x1)
      AD == Dot(A, D)
      t1 == Dot(A, Minus(xf, x1))
      dist == f.up + f.dn IN
  /\ b \in own /\ f.nc = Cardinality(own) /\ f.int = (f.nc = 2) /\ f.loc = (\E c \in own : c <= nl)
  /\ f.nc = 2 => f.c[1] >= 0 /\ {f.c[1] + 1, b} = own
  /\ f.nc = 1 => f.c[1] < 0 /\ -f.c[1] <= m.nbf
  /\ NoRepeat(f.v) /\ Len(f.v) = Cardinality(S) /\ NoRepeat(EdgesIn(f)) /\ Len(EdgesIn(f)) = Len(f.v) /\ \A e \in Range(EdgesIn(f)) : es[e + 1] \subseteq S
  /\ f.na = A /\ f.area4 = Dot(A, A) /\ f.cen = xf
  /\ f.nc = 2 => InnerOk(f, D, AD, t1, dist)
  /\ f.nc = 1 => RimOk(f, A, AD)
PFacesOk(g, nat, nl, m, fs, es) ==
  /\ NoRepeat(fs) /\ Range(fs) = UNION {g.fs[i + 1] : i \in Range(nat)}
  /\ \A k \in DOMAIN m.faces : PFaceOk(g, nat, nl, m, k, fs[k], es)
  /\ LET B == SelectSeq(m.faces, LAMBDA f : f.nc = 1) IN NoRepeat([k \in DOMAIN B |-> B[k].c[1]]) /\ Len(B) = m.nbf
\* subcell s of cell k belongs to its s-th corner, with the three faces that meet there
\* the neighbours of corner v in the face with corners S of cell in; centre of the part of the face at v (times 96, x = 120 times the centre of the face)
Beside(in, S, v) == LET s == FaceSeq(in, S) n == Len(s) i == CHOOSE i \in 1..n : s[i] = v IN <<s[IF i = n THEN 1 ELSE i + 1], s[IF i = 1 THEN n ELSE i - 1]>>
PartCentre(g, in, S, v, x) == LET b == Beside(in, S, v) IN
  [d \in 1..3 |-> 48 * At(g.X, v)[d] + 12 * At(g.X, b[1])[d] + 12 * At(g.X, b[2])[d] + x[d] \div 5]
\* the three vectors of a subcell: cross products of the vectors from the centre of the cell to its faces, into the cell
VectorsOk(c, u, m) == LET F == [j \in 1..3 |-> Minus(m.faces[u.f[j] + 1].cen, c.cen)] IN
  /\ Det(F[1], F[2], F[3]) < 0
  /\ \A j \in 1..3 : u.nu[j] = Cross(F[(j % 3) + 1], F[((j + 1) % 3) + 1])
SubcellsOk(g, nat, m, vn, fs) ==
  \A k \in DOMAIN nat : LET c == m.cells[k] in == g.C[nat[k] + 1] IN
    /\ Len(c.sub) = Len(c.v)
    /\ \A s \in DOMAIN c.sub : LET u == c.sub[s] IN
         /\ u.n = 3 /\ NoRepeat(u.f) /\ Range(u.f) = {f \in Range(c.f) : c.v[s] \in Range(m.faces[f + 1].v)}
         /\ Len(u.v) = 3 /\ \A j \in 1..3 : u.v[j] = c.v[s] /\ u.a[j] * Len(m.faces[u.f[j] + 1].v) * Len(m.faces[u.f[j] + 1].v) = 144 * m.faces[u.f[j] + 1].area4
         /\ VectorsOk(c, u, m)
         /\ \A j \in 1..3 : u.fc[j] = PartCentre(g, in, fs[u.f[j] + 1], vn[c.v[s] + 1], m.faces[u.f[j] + 1].cen)
         /\ u.T = Abs(Det(Minus(m.faces[u.f[1] + 1].cen, c.cen), Minus(m.faces[u.f[2] + 1].cen, c.cen), Minus(m.faces[u.f[3] + 1].cen, c.cen))) \div 8000
\* around a vertex of several cells, of which one is owned: unknowns and fluxes are numbered consistently
AroundOk(m, v) ==
  LET x == m.verts[v]
      P == {<<i, j>> : i \in DOMAIN x.c, j \in 1..3}
      Of(p) == LET u == m.cells[x.c[p[1]] + 1].sub[x.s[p[1]] + 1] IN [f |-> u.f[p[2]], up |-> u.up[p[2]], u |-> u.u[p[2]], x |-> u.x[p[2]]]
      E == [p \in P |-> Of(p)]
      inner == {f \in Range(x.f) : m.faces[f + 1].nc = 2}
      bnd == Range(x.f) \ inner
      n == Cardinality(inner)
      At2(f) == {p \in P : E[p].f = f}
      Ups(z) == {p \in P : E[p].f \in bnd /\ E[p].up = z} IN
  /\ \A p \in P : E[p].up \in {0, 1}
  /\ \A f \in inner : /\ Cardinality(At2(f)) = 2 /\ {E[p].up : p \in At2(f)} = {0, 1}
                      /\ Cardinality({E[p].u : p \in At2(f)}) = 1 /\ \A p \in At2(f) : E[p].u = E[p].x
  /\ {E[p].u : p \in {p \in P : E[p].f \in inner}} = 0..(n - 1)
  /\ {E[p].u : p \in {p \in P : E[p].f \in bnd}} = n..(Cardinality(Range(x.f)) - 1)
  /\ \A z \in {0, 1} : {E[p].x : p \in Ups(z)} = n..(n + Cardinality(Ups(z)) - 1)
PMeshOk(g, nat, nl, m) ==
  LET vn == [v \in DOMAIN m.verts |-> VertexOf(g, m.verts[v].x)]
      fs == [f \in DOMAIN m.faces |-> Range(Names(vn, m.faces[f].v))]
      es == [e \in DOMAIN m.edges |-> Range(Names(vn, m.edges[e].v))] IN
  /\ ReferencesOk(m)
  /\ PCellsOk(g, nat, nl, m, vn, fs, es) /\ VerticesOk(g, nat, nl, m, vn) /\ EdgesOk(g, nat, m, vn, es) /\ PFacesOk(g, nat, nl, m, fs, es) /\ SubcellsOk(g, nat, m, vn, fs)
  /\ \A v \in DOMAIN m.verts : m.verts[v].loc /\ Len(m.verts[v].c) > 1 => AroundOk(m, v)
PSetup(M, ok) ==
  /\ UNCHANGED pvars
  /\ Rules # {} => ok
  /\ Rule("mesh", \A r \in 1..grid.np : PMeshOk(grid, ids[r], tab[r].nl, M[r]))
============================================================================
