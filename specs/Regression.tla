----------------------------- MODULE Regression ------------------------------
(* Regression files. A dycore distributes its cells over the processes (own:
   the number of cells of each) and its solution has one value per cell, or two
   (th: pressure and temperature, cell by cell). Writing the solution replaces
   the dycore's file.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rules, Dy, File
On == "file" \in Rules
VARIABLES dy,    \* [Dy -> [own, th, n, f] or NoDy]
          file   \* [File -> content or NoFile]
vars == <<dy, file>>
NoDy == [own |-> <<>>, th |-> FALSE, n |-> 0, f |-> 0]
NoFile == [u |-> <<>>, own |-> <<>>, th |-> FALSE, n |-> 0]
Init == dy = [d \in Dy |-> NoDy] /\ file = [f \in File |-> NoFile]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Least(s) == LET R == {s[j] : j \in DOMAIN s} IN CHOOSE x \in R : \A y \in R : x <= y
Most(s) == LET R == {s[j] : j \in DOMAIN s} IN CHOOSE x \in R : \A y \in R : y <= x
Cells(own) == Sum(own)
\* cells are numbered through the processes, from 0
Owner(own, c) == CHOOSE r \in DOMAIN own : Sum(SubSeq(own, 1, r - 1)) <= c /\ c < Sum(SubSeq(own, 1, r))
PerProc(own, n) == IF n < Least(own) THEN n ELSE Least(own)
\* the values of one field, by cell
Field(c, t) == LET k == IF c.th THEN 2 ELSE 1 IN [j \in 1..Cells(c.own) |-> c.u[k * (j - 1) + 1 + t]]
\* a section s of the file [max, min, sum, cells: <<<<cell, value>>, ...>>] holds
\* field t of the content c
SectionOk(s, c, t) ==
  LET v == Field(c, t) IN
  /\ s.max = Most(v) /\ s.min = Least(v) /\ s.sum = Sum(v)
  /\ \A j \in DOMAIN s.cells : s.cells[j][1] \in 0..(Cells(c.own) - 1) /\ s.cells[j][2] = v[s.cells[j][1] + 1]
  /\ \A i, j \in DOMAIN s.cells : i # j => s.cells[i][1] # s.cells[j][1]
  /\ \A r \in DOMAIN c.own : Cardinality({j \in DOMAIN s.cells : Owner(c.own, s.cells[j][1]) = r}) = PerProc(c.own, c.n)
FileOk(o, c) ==
  IF c = NoFile THEN DOMAIN o = {}
  ELSE /\ DOMAIN o = (IF c.th THEN {"p", "t"} ELSE {"p"})
       /\ SectionOk(o.p, c, 0)
       /\ c.th => SectionOk(o.t, c, 1) /\ [j \in DOMAIN o.p.cells |-> o.p.cells[j][1]] = [j \in DOMAIN o.t.cells |-> o.t.cells[j][1]]
New(d, own, th, n, f, ok) ==
  /\ dy[d] = NoDy /\ dy' = [dy EXCEPT ![d] = [own |-> own, th |-> th, n |-> n, f |-> f]] /\ UNCHANGED file
  /\ On => ok
Del(d) == dy[d] # NoDy /\ dy' = [dy EXCEPT ![d] = NoDy] /\ UNCHANGED file
\* the solution u of d is output; every file is observed
Out(d, u, ok, o) ==
  /\ dy[d] # NoDy /\ UNCHANGED dy
  /\ Len(u) = Cells(dy[d].own) * (IF dy[d].th THEN 2 ELSE 1)
  /\ file' = [file EXCEPT ![dy[d].f] = [u |-> u, own |-> dy[d].own, th |-> dy[d].th, n |-> dy[d].n]]
  /\ On => ok /\ \A f \in File : FileOk(o[f], file'[f])
==============================================================================
