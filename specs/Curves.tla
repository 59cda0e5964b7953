-------------------------------- MODULE Curves --------------------------------
(* Which saturation model and which relative permeability model every point of a
   domain uses, and what these models yield.  Points are assigned models in
   groups, any number of times; dycores assign all of theirs when set up. *)
EXTENDS Integers, Sequences, CurvesTable

CONSTANTS Rules        \* {"curves"} or {}
On == "curves" \in Rules
None == <<>>

VARIABLES sat, kr      \* [point -> <<type, parameters>> or None]
vars == <<sat, kr>>
Init0(P) == sat = [p \in P |-> None] /\ kr = [p \in P |-> None]

\* points with odd numbers have a residual saturation of 1/4, the others of 0
Sr(p) == IF p % 2 = 0 THEN 0 ELSE 250000
Scaled(p, se) == IF p % 2 = 0 THEN se ELSE (3 * se + 1000000) \div 4
SatAt(p, l) == Scaled(p, SeTable[sat[p][1] + 1][sat[p][2] + 1][l + 1])
KrAt(p, l) == KrTable[kr[p][1] + 1][kr[p][2] + 1][l + 1]
KrFrom(p, l) == KrOfTable[sat[p][1] + 1][sat[p][2] + 1][l + 1][kr[p][1] + 1][kr[p][2] + 1]
Near(a, b) == a - b \in -3..3

\* the model of the listed points becomes t, with the parameters listed
Given(f, t, pts, prm) == [p \in DOMAIN f |->
  IF \E k \in DOMAIN pts : pts[k] = p THEN <<t, prm[CHOOSE k \in DOMAIN pts : pts[k] = p]>> ELSE f[p]]
\* q = 0: saturation, 1: relative permeability
Assign(q, t, pts, prm) ==
  /\ sat' = IF q = 0 THEN Given(sat, t, pts, prm) ELSE sat
  /\ kr' = IF q = 1 THEN Given(kr, t, pts, prm) ELSE kr
\* a dycore that is set up uses Van Genuchten's and Mualem's models everywhere
Dycore(n, m) == sat' = [p \in 0..n - 1 |-> <<1, m>>] /\ kr' = [p \in 0..n - 1 |-> <<1, m>>]

\* evaluation on all points (sa, ka) and on a list of points (so, ko): point p, or
\* the k-th of the list, is given level r + p, or r + k
Look(r, ord, sa, so, ka, ko) ==
  /\ UNCHANGED vars
  /\ On =>
     /\ \A p \in DOMAIN sat : sat[p] # None => Near(sa[p + 1], SatAt(p, (r + p) % PcLevels))
     /\ \A p \in DOMAIN kr : kr[p] # None => Near(ka[p + 1], KrAt(p, (r + p) % SeLevels))
     /\ \A k \in DOMAIN ord : sat[ord[k]] # None => Near(so[k], SatAt(ord[k], (r + k) % PcLevels))
     /\ \A k \in DOMAIN ord : kr[ord[k]] # None => Near(ko[k], KrAt(ord[k], (r + k) % SeLevels))
\* the state of a dycore with pressures at levels r + p, and of its boundary faces
\* f = <<number, cell, saturation, relative permeability>> at levels r + number
Update(r, s, k, bnd) ==
  /\ UNCHANGED vars
  /\ On =>
     /\ \A p \in DOMAIN sat : Near(s[p + 1], SatAt(p, (r + p) % PcLevels)) /\ Near(k[p + 1], KrFrom(p, (r + p) % PcLevels))
     /\ \A j \in DOMAIN bnd : LET f == bnd[j] IN
          Near(f[3], SatAt(f[2], (r + f[1]) % PcLevels)) /\ Near(f[4], KrFrom(f[2], (r + f[1]) % PcLevels))
\* how often, over a fine sweep of pressures at a point, a value was out of range or decreased
Sweep(p, sout, sdec, kout, kdec) ==
  /\ UNCHANGED vars
  /\ On => (sat[p] # None => sout = 0 /\ sdec = 0) /\ (sat[p] # None /\ kr[p] # None => kout = 0 /\ kdec = 0)

\* the documented curves themselves: pressure falls with the level
ASSUME \A t \in 1..2 : \A q \in 1..NSat[t] : \A l \in 1..PcLevels :
         SeTable[t][q][l] \in 0..1000000 /\ (l > 1 => SeTable[t][q][l] <= SeTable[t][q][l - 1])
ASSUME \A t \in 1..2 : \A q \in 1..NKr[t] : \A l \in 1..SeLevels :
         KrTable[t][q][l] \in 0..1000000 /\ (l > 1 => KrTable[t][q][l] >= KrTable[t][q][l - 1])
ASSUME \A t \in 1..2 : \A q \in 1..NSat[t] : \A u \in 1..2 : \A r \in 1..NKr[u] : \A l \in 2..PcLevels :
         KrOfTable[t][q][l][u][r] <= KrOfTable[t][q][l - 1][u][r]
=============================================================================
