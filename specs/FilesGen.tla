------------------------------- MODULE FilesGen -------------------------------
(* Closed model of Files, and behaviours to be executed. The files of the model
   are flat sequences, written and read in blocks by the processes: process r has
   Share(r) cells of the file, wherever its cells of the mesh are, and a scatter
   takes entry j of process r to the owner of the cell at that place of the file.
   Sharing "evenly" while the vectors are laid out by the cells that processes
   own is not sound.                                                           *)
EXTENDS Files, TLC, Json
CONSTANTS Ncs, Nps, Nds, Vals, Times, Ops, MaxOps, Sharing, Sim, Rec
VARIABLES hist, n, mesh
gvars == <<vars, hist, n, mesh>>
Pick(Z) == IF Sim /\ n >= 0 /\ Z # {} THEN {RandomElement(Z)} ELSE Z
Go(o, e) == o \in Ops /\ n < MaxOps /\ n' = n + 1 /\ hist' = (IF Rec THEN Append(hist, e) ELSE hist) /\ UNCHANGED mesh
GInit == Init /\ hist = <<>> /\ n = 0 /\ mesh \in [nc : Ncs, np : Nps, nd : Nds]
\* the cells of a partition (a function on cells), process by process
RECURSIVE Listed(_, _, _)
Listed(part, r, c) == IF c \notin DOMAIN part THEN <<>> ELSE (IF part[c] = r THEN <<c>> ELSE <<>>) \o Listed(part, r, c + 1)
Ids(part, np) == [r \in 1..np |-> Listed(part, r - 1, 0)]
\* local order: own cells, then the others
Lids(part, np) == [r \in 1..np |-> Listed(part, r - 1, 0) \o Listed([c \in DOMAIN part |-> IF part[c] = r - 1 THEN 0 ELSE 1], 1, 0)]
Parts == [0..(mesh.nc - 1) -> 0..(mesh.np - 1)]
Values(a) == [k \in 1..(mesh.nc * mesh.nd) |-> (a * k * k + k) % 97]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Share(ids, r) == IF Sharing = "owned" THEN Len(ids[r])
                 ELSE mesh.nc \div Len(ids) + (IF r <= mesh.nc % Len(ids) THEN 1 ELSE 0)
Start(ids, r) == Sum([j \in 1..(r - 1) |-> Share(ids, j)])
\* the process that has place k (from 0) of a vector in natural order, and where
OwnedStart(ids, r) == Sum([j \in 1..(r - 1) |-> Len(ids[j])])
HolderOf(ids, k) == CHOOSE r \in DOMAIN ids : OwnedStart(ids, r) <= k /\ k < OwnedStart(ids, r) + Len(ids[r])
\* reading a flat file of cells' values: every process its block, then the scatter
Block(file, ids, r) == SubSeq(file, mesh.nd * Start(ids, r) + 1, mesh.nd * (Start(ids, r) + Share(ids, r)))
Loaded(file, ids) ==
  [k \in 1..(mesh.nc * mesh.nd) |->
     LET r == HolderOf(ids, (k - 1) \div mesh.nd)
         j == k - mesh.nd * OwnedStart(ids, r)
         b == Block(file, ids, r)
     IN IF j <= Len(b) THEN b[j] ELSE -1]
ReadBack(x, r) == LET nat == Loaded(x, r.ids) IN <<Spread(r.ids, r.nd, nat), Spread(r.lids, r.nd, nat)>>
GOpen == \E p \in Pick(Parts) :
  /\ run = NoRun /\ Go("open", [e |-> "open", ic |-> -1, y |-> RandomElement(0..999)])
  /\ LET ids == Ids(p, mesh.np) IN Open(mesh.nc, mesh.nd, ids, Lids(p, mesh.np), Spread(ids, mesh.nd, Values(0)))
\* a run that starts from a file
GOpenIC == \E p \in Pick(Parts), f \in Pick({c.t : c \in chk} \cup (IF usr = {} THEN {} ELSE {-2})) :
  /\ run = NoRun
  /\ Go("openic", [e |-> "open", ic |-> f, y |-> RandomElement(0..999)])
  /\ LET ids == Ids(p, mesh.np) x == IF f = -2 THEN (CHOOSE u \in usr : TRUE).x ELSE (CHOOSE c \in chk : c.t = f).x IN
       Open(mesh.nc, mesh.nd, ids, Lids(p, mesh.np), Spread(ids, mesh.nd, x))
GSet == \E a \in Pick(Vals) : Go("state", [e |-> "state", a |-> a, c |-> RandomElement(0..9)]) /\ Set(Spread(run.ids, run.nd, Values(a)))
GChk == \E t \in Pick(Times) : Go("chk", [e |-> "chk", t |-> t, step |-> n]) /\ Checkpoint(t, n, TRUE)
GUser == \E a \in Pick(Vals) : Go("user", [e |-> "user", a |-> a, c |-> n]) /\ usr = {} /\ UserFile("u", "IC", Values(a))
GRead == \E c \in Pick(chk) : Go("read", [e |-> "readic", t |-> c.t])
  /\ LET b == ReadBack(c.x, run) IN Read(c.x, TRUE, b[1], b[1], b[2])
GReadU == usr # {} /\ \E c \in usr : Go("readu", [e |-> "readic", t |-> -2])
  /\ LET b == ReadBack(c.x, run) IN Read(c.x, TRUE, b[1], b[1], b[2])
GClose == Go("close", [e |-> "close"]) /\ Close(TRUE)
GOut == ~run.w /\ Go("out", [e |-> "out"]) /\ Output(TRUE)
GWrite == run.w /\ \E t \in Pick({x \in Times : \A r \in out.recs : r.t # x}) : Go("write", [e |-> "write", t |-> t]) /\ Write(t, TRUE)
GNext == GOpen \/ GOpenIC \/ GSet \/ GChk \/ GUser \/ GRead \/ GReadU \/ GClose \/ GOut \/ GWrite
GSpec == GInit /\ [][GNext]_gvars
\* whatever file there is, every run can be started from it
Sound == run # NoRun => /\ \A c \in chk : LET b == ReadBack(c.x, run) IN Restored(c.x, run, b[1], b[1], b[2])
                        /\ \A c \in usr : LET b == ReadBack(c.x, run) IN Restored(c.x, run, b[1], b[1], b[2])
\* the state is known by the values of its cells alone
Whole1 == run # NoRun => Whole(Spread(run.ids, run.nd, st), run.ids, run.nd) /\ Natural(run.ids, run.nc, run.nd, Spread(run.ids, run.nd, st)) = st
Files1 == \A c, d \in chk : c.t = d.t => c = d
Emit == n = MaxOps => PrintT("SCEN " \o ToJson(hist))
==============================================================================
