------------------------------ MODULE CurvesGen -------------------------------
(* Closed model of Curves for checking and for generating behaviours. *)
EXTENDS Curves, TLC, Json, FiniteSets, SequencesExt
CONSTANTS Sim, Acts, P, Kinds, Types, Q, Steps, Rots, Discs, MaxOps
VARIABLES hist, n
gvars == <<vars, hist, n>>
\* in random generation one candidate is drawn, instead of all being tried
Varies(Z) == IF Sim /\ n >= 0 THEN {RandomElement(Z)} ELSE Z
A(a) == a \in Acts /\ n < MaxOps /\ n' = n + 1
Rec(e) == hist' = Append(hist, e)
GInit == Init0(P) /\ hist = <<>> /\ n = 0
Order(Z, rev) == IF rev THEN Reverse(SetToSortSeq(Z, <)) ELSE SetToSortSeq(Z, <)
Kinds_(q, t) == IF q = 0 THEN NSat[t + 1] ELSE NKr[t + 1]
GAssign == \E q \in Varies(Kinds), t \in Varies(Types), Z \in Varies(SUBSET P \ {{}}), rev \in Varies(BOOLEAN), b \in Varies(Q), d \in Varies(Steps), r \in Varies(Rots) :
  LET pts == Order(Z, rev)
      prm == [k \in 1..Len(pts) |-> (b + d * pts[k]) % Kinds_(q, t)]
  IN /\ A("as") /\ (rev => Len(pts) > 1) /\ (d > 0 => Len(pts) > 1)
     /\ Assign(q, t, pts, prm) /\ Rec([e |-> "as", q |-> q, t |-> t, p |-> pts, m |-> prm, r |-> r])
GDycore == \E m \in Varies(0..3), d \in Varies(Discs) :
  A("dy") /\ n = 0 /\ Dycore(Cardinality(P), m) /\ Rec([e |-> "dy", d |-> d, c |-> Cardinality(P), m |-> m])
GUpdate == \E r \in Varies(Rots) : A("up") /\ hist # <<>> /\ hist[1].e = "dy" /\ UNCHANGED vars /\ Rec([e |-> "up", r |-> r])
GSweep == \E p \in Varies(P) : A("sweep") /\ sat[p] # None /\ UNCHANGED vars /\ Rec([e |-> "sweep", p |-> p])
GNext == GAssign \/ GDycore \/ GUpdate \/ GSweep
GSpec == GInit /\ [][GNext]_gvars

\* every point's model is the one of the last assignment that lists it
LastFor(q, p) ==
  LET at == {j \in DOMAIN hist : (hist[j].e = "as" /\ hist[j].q = q /\ \E k \in DOMAIN hist[j].p : hist[j].p[k] = p) \/ hist[j].e = "dy"}
      j == CHOOSE j \in at : \A i \in at : i <= j
  IN IF at = {} THEN None
     ELSE IF hist[j].e = "dy" THEN <<1, hist[j].m>>
     ELSE <<hist[j].t, hist[j].m[CHOOSE k \in DOMAIN hist[j].p : hist[j].p[k] = p]>>
LastWins == \A p \in P : sat[p] = LastFor(0, p) /\ kr[p] = LastFor(1, p)
\* an assignment of one kind never changes the other, nor any point it does not list
Apart == [][hist' # hist /\ hist'[Len(hist')].e = "as" =>
             LET e == hist'[Len(hist')] IN
             /\ (e.q = 0 => kr' = kr) /\ (e.q = 1 => sat' = sat)
             /\ \A p \in P : (\A k \in DOMAIN e.p : e.p[k] # p) => sat'[p] = sat[p] /\ kr'[p] = kr[p]]_gvars
Emit == n = MaxOps => PrintT("SCEN " \o ToJson(hist))
=============================================================================
