---------------------------- MODULE RegressionGen ----------------------------
(* Closed model of Regression: one admissible way of choosing cells (Spread) is
   shown to satisfy it for every distribution, and behaviours are generated.
   In generated behaviours values are coefficients (VAL of the harness).      *)
EXTENDS Regression, TLC, Json
CONSTANTS Owns, Ns, Vals, Kinds, MaxOps, Sim, Rec
VARIABLES hist, n
gvars == <<vars, hist, n>>
Pick(Z) == IF Sim /\ n >= 0 /\ Z # {} THEN {RandomElement(Z)} ELSE Z
Go(e) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, e)
GInit == Init /\ hist = <<>> /\ n = 0
\* the first cells of PerProc equal parts of every process
Spread(own, k) ==
  LET m == PerProc(own, k)
      At(r, i) == Sum(SubSeq(own, 1, r - 1)) + i * (own[r] \div m)
  IN IF m = 0 THEN <<>> ELSE [j \in 1..(m * Len(own)) |-> At((j - 1) \div m + 1, (j - 1) % m)]
Sect(c, t) == LET v == Field(c, t) ids == Spread(c.own, c.n) IN
  [max |-> Most(v), min |-> Least(v), sum |-> Sum(v), cells |-> [j \in DOMAIN ids |-> <<ids[j], v[ids[j] + 1]>>]]
Text(c) == IF c = NoFile THEN [x \in {} |-> 0] ELSE IF c.th THEN [p |-> Sect(c, 0), t |-> Sect(c, 1)] ELSE [p |-> Sect(c, 0)]
Texts(fl) == [f \in File |-> Text(fl[f])]
Fill(d, a) == [j \in 1..(Cells(dy[d].own) * (IF dy[d].th THEN 2 ELSE 1)) |-> (a * j * j) % 7]
GNew == \E d \in Pick({x \in Dy : dy[x] = NoDy}), own \in Pick(Owns), k \in Pick(Kinds), m \in Pick(Ns), f \in Pick(File) :
  /\ Go([e |-> "new", d |-> d, kind |-> k, own |-> own, n |-> m, f |-> f])
  /\ New(d, own, k = 1, m, f, TRUE)
GOut == \E d \in Pick({x \in Dy : dy[x] # NoDy}), a \in Pick(Vals), how \in Pick({0, 1}), b \in Pick({0, 1}) :
  /\ Go([e |-> "out", d |-> d, a |-> a, how |-> how, b |-> b])
  /\ LET c == [u |-> Fill(d, a), own |-> dy[d].own, th |-> dy[d].th, n |-> dy[d].n] IN
     Out(d, Fill(d, a), TRUE, Texts([file EXCEPT ![dy[d].f] = c]))
GDel == Sim /\ \E d \in Pick({x \in Dy : dy[x] # NoDy}) : Go([e |-> "del", d |-> d]) /\ Del(d)
GNext == GNew \/ GOut \/ GDel
GSpec == GInit /\ [][GNext]_gvars
\* every output was accepted: the choice above is admissible
Emit == n = MaxOps /\ (\E d \in Dy : dy[d] # NoDy) => PrintT("SCEN " \o ToJson(hist))
CanAlways == \A d \in Dy : dy[d] # NoDy => \A a \in Vals : LET c == [u |-> Fill(d, a), own |-> dy[d].own, th |-> dy[d].th, n |-> dy[d].n] IN FileOk(Text(c), c)
==============================================================================
