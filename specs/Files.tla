-------------------------------- MODULE Files --------------------------------
(* The files of a run. A run has nd unknowns in every cell of its mesh; its
   processes own the cells ids[1], ids[2], ... (sequences of identifiers of the
   input mesh, from 0) and hold their values in that order, process by process.
   Files hold values in natural order: by cell identifier, whatever the owners.

   Checkpoints save the state under the time and step of the run; an initial
   condition file (a checkpoint, or one written by the user) puts every cell's
   values back, in this run or any other on the same mesh. Property files give
   every cell its porosity or the diagonal of its permeability. Output adds,
   for each time, the unknowns and the saturation of every cell.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rules
RC == "restart" \in Rules
RO == "output" \in Rules
RP == "props" \in Rules
VARIABLES run,    \* [nc, nd, ids, lids, w (does it write output?)] or NoRun
          st,     \* the state, in natural order
          chk,    \* checkpoints: a set of [t, step, x]
          usr,    \* files of the user: a set of [n, ds, x]
          out     \* output: [on, recs: a set of [t, x]]
vars == <<run, st, chk, usr, out>>
NoRun == [nc |-> 0, nd |-> 0, ids |-> <<>>, lids |-> <<>>, w |-> FALSE]
NoOut == [on |-> FALSE, recs |-> {}]
Init == run = NoRun /\ st = <<>> /\ chk = {} /\ usr = {} /\ out = NoOut
\* every cell has one owner
Partitioned(ids, nc) ==
  /\ \A r \in DOMAIN ids : \A j \in DOMAIN ids[r] : ids[r][j] \in 0..(nc - 1)
  /\ \A c \in 0..(nc - 1) : Cardinality({<<r, j>> \in UNION {{<<q, i>> : i \in DOMAIN ids[q]} : q \in DOMAIN ids} : ids[r][j] = c}) = 1
\* values in natural order, spread over processes
Spread(ids, nd, nat) == [r \in DOMAIN ids |-> [k \in 1..(nd * Len(ids[r])) |-> nat[nd * ids[r][(k - 1) \div nd + 1] + ((k - 1) % nd) + 1]]]
\* and back
Natural(ids, nc, nd, v) ==
  [k \in 1..(nc * nd) |->
     LET c == (k - 1) \div nd
         w == CHOOSE w \in UNION {{<<q, i>> : i \in DOMAIN ids[q]} : q \in DOMAIN ids} : ids[w[1]][w[2]] = c
     IN v[w[1]][nd * (w[2] - 1) + ((k - 1) % nd) + 1]]
Whole(v, ids, nd) == DOMAIN v = DOMAIN ids /\ \A r \in DOMAIN ids : Len(v[r]) = nd * Len(ids[r])
Component(nat, nd, d) == [j \in 1..(Len(nat) \div nd) |-> nat[nd * (j - 1) + d + 1]]

\* (values are four times those of the code, saturations 10^5 times) the curve of
\* the run: van Genuchten, m = 1/2, n = 2, alpha = 1/1200, residual saturation 1/10
Pref4 == 405300
Effective(x4) ==   \* the effective saturation at these capillary pressures is rational
  CASE x4 = 4 * 900 -> <<4, 5>> [] x4 = 4 * 1600 -> <<3, 5>> [] x4 = 4 * 2880 -> <<5, 13>> [] x4 = 4 * 2250 -> <<8, 17>>
    [] x4 = 4 * 640 -> <<15, 17>> [] x4 = 4 * 500 -> <<12, 13>> [] OTHER -> <<1, 1>>
Sat5(p4) == LET s == IF p4 >= Pref4 THEN <<1, 1>> ELSE Effective(Pref4 - p4) IN 10000 + (90000 * s[1]) \div s[2]
Near(a, b) == a - b \in -2..2

Open(nc, nd, ids, lids, v) ==
  /\ run = NoRun /\ run' = [nc |-> nc, nd |-> nd, ids |-> ids, lids |-> lids, w |-> FALSE]
  /\ Partitioned(ids, nc) /\ Whole(v, ids, nd)
  /\ st' = Natural(ids, nc, nd, v) /\ UNCHANGED <<chk, usr, out>>
\* the state of a run moves on
Set(v) == run # NoRun /\ Whole(v, run.ids, run.nd) /\ st' = Natural(run.ids, run.nc, run.nd, v) /\ UNCHANGED <<run, chk, usr, out>>
Checkpoint(t, step, ok) ==
  /\ run # NoRun /\ (RC => ok)
  /\ chk' = {c \in chk : c.t # t} \cup {[t |-> t, step |-> step, x |-> st]}
  /\ UNCHANGED <<run, st, usr, out>>
UserFile(n, ds, x) == usr' = {f \in usr : f.n # n \/ f.ds # ds} \cup {[n |-> n, ds |-> ds, x |-> x]} /\ UNCHANGED <<run, st, chk, out>>
\* x is what the file read holds; u, v, w what the processes hold afterwards
Restored(x, r, u, v, w) == u = Spread(r.ids, r.nd, x) /\ v = u /\ w = Spread(r.lids, r.nd, x)
Read(x, ok, u, v, w) ==
  /\ run # NoRun /\ (RC => ok /\ Restored(x, run, u, v, w))
  /\ st' = x /\ UNCHANGED <<run, chk, usr, out>>
Close(ok) == run # NoRun /\ run' = NoRun /\ st' = <<>> /\ UNCHANGED <<chk, usr, out>> /\ (RO => ok)
\* every checkpoint has a file of its own, and it holds this
Checkpoints(files) ==
  RC => /\ {[t |-> f.t, step |-> f.step, x |-> f.ic] : f \in files} = chk
        /\ Cardinality(files) = Cardinality(chk)
\* a run that writes output starts its files anew
Output(ok) == run # NoRun /\ run' = [run EXCEPT !.w = TRUE] /\ out' = [on |-> TRUE, recs |-> {}] /\ UNCHANGED <<st, chk, usr>> /\ (RO => ok)
Write(t, ok) ==
  /\ run.w /\ (RO => ok)
  /\ out' = [out EXCEPT !.recs = {r \in @ : r.t # t} \cup {[t |-> t, x |-> st, nd |-> run.nd]}]
  /\ UNCHANGED <<run, st, chk, usr>>
\* the fields of the output file: [t, q, d (which unknown, or -1: the saturation), x4, e5]
FieldOk(f) ==
  \E r \in out.recs : r.t = f.t /\ IF f.d >= 0 THEN f.d < r.nd /\ f.x4 = Component(r.x, r.nd, f.d)
                                   ELSE LET p == Component(r.x, r.nd, 0) IN Len(f.e5) = Len(p) /\ \A j \in DOMAIN p : Near(f.e5[j], Sat5(p[j]))
FieldsOk(fields) ==
  /\ \A f \in fields : FieldOk(f)
  /\ \A r \in out.recs : \A d \in -1..(r.nd - 1) : Cardinality({f \in fields : f.t = r.t /\ f.d = d}) = 1
\* the mesh in the file: row i names the corners of input cell i - 1
MeshOk(rows, verts, C, X) ==
  /\ Len(rows) = Len(C)
  /\ \A c \in DOMAIN C : {verts[rows[c][j] + 1] : j \in DOMAIN rows[c]} = {X[C[c][j] + 1] : j \in DOMAIN C[c]} /\ Len(rows[c]) = Len(C[c])
\* the description: [ok (well formed), cells, verts, n, shape, attrs: <<[t, q, path, n], ...>>]
DescribedOk(d, fields, C, X, paths) ==
  /\ d.ok /\ d.cells = <<Len(C), Len(C[1])>> /\ d.verts = <<Len(X), 3>> /\ d.n = Len(C)
  /\ d.shape = (CASE Len(C[1]) = 8 -> "Hexahedron" [] Len(C[1]) = 6 -> "Wedge" [] Len(C[1]) = 4 -> "Tetrahedron" [] OTHER -> "")
  /\ \A j \in DOMAIN d.attrs : d.attrs[j].path \in paths /\ d.attrs[j].n = <<Len(C)>>
  /\ \A r \in out.recs : \A d2 \in {-1, 0} : \E j \in DOMAIN d.attrs : d.attrs[j].t = r.t /\ d.attrs[j].d = d2
OutputFiles(has, hasd, fields, rows, verts, d, C, X, paths) ==
  RO => IF out.on THEN has /\ hasd /\ FieldsOk(fields) /\ MeshOk(rows, verts, C, X) /\ DescribedOk(d, fields, C, X, paths)
        ELSE ~has /\ ~hasd
\* properties from files: porosity (one value), the diagonal of the permeability
Props(phi, K, por, kx, ky, kz) ==
  RP => /\ por # <<>> => phi = Spread(run'.lids, 1, por)
        /\ kx # <<>> => DOMAIN K = DOMAIN run'.lids /\ \A r \in DOMAIN K : DOMAIN K[r] = DOMAIN run'.lids[r] /\ \A j \in DOMAIN K[r] :
             LET c == run'.lids[r][j] + 1 IN K[r][j] = <<kx[c], 0, 0, 0, ky[c], 0, 0, 0, kz[c]>>
==============================================================================
