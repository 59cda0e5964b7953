----------------------------- MODULE FortranGen ------------------------------
(* Closed model of Fortran for checking and for generating behaviours. *)
EXTENDS Fortran, TLC, Json
CONSTANTS GFuncs, GInts, GQ, SelQ, ConstQ, MaxOps, Styles, Sim, Bulk
VARIABLES hist, n
gvars == <<vars, hist, n>>
Pick(Z) == IF Sim /\ n >= 0 /\ Z # {} THEN {RandomElement(Z)} ELSE Z
RECURSIVE Seq_(_)
Seq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq_(S \ {x})
Want == Seq_(Sees(live', slot'))
Go(e) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, e)
GInit == Init /\ hist = <<>> /\ n = 0
\* (dycores are created in order and destroyed in any order)
GNew == LET d == Cardinality(live) + 1 IN d \in Dy /\ d \notin live /\ Go([e |-> "new", d |-> d]) /\ New(d, TRUE, Want)
GDel == n > 2 /\ Sim /\ \E d \in Pick(live) : Go([e |-> "del", d |-> d]) /\ Del(d, TRUE, Want)
GReg == \E m \in Pick(Name), k \in Pick(GFuncs), s \in Pick(Styles) : Go([e |-> "reg", n |-> m, k |-> k, s |-> s]) /\ Register(m, k, TRUE, Want)
GSel == \E d \in Pick(live), q \in Pick(SelQ), m \in Pick(Name), s \in Pick(Styles) :
          Go([e |-> "sel", d |-> d, q |-> q, n |-> m, s |-> s]) /\ Select(d, q, m, names[m] # 0, Want)
Fits(q) == IF q = 7 THEN GInts ELSE IF q = 6 THEN GFuncs ELSE IF q \in {8, 9} THEN GFuncs \cup (IF Sim THEN {41, 42, 51, 52} ELSE {}) ELSE GFuncs
GSet == \E d \in Pick(live), q \in Pick(GQ) : \E k \in Pick(Fits(q)) : Go([e |-> "set", d |-> d, q |-> q, k |-> k]) /\ Set(d, q, k, TRUE, Want)
GConst == \E d \in Pick(live), q \in Pick(ConstQ), k \in Pick({2, 3}) : Go([e |-> "const", d |-> d, q |-> q, k |-> k]) /\ Const(d, q, k, TRUE, Want)
\* many functions become known at once: a run of registrations or of settings
GBulk == /\ Bulk /\ \E d \in Pick(live), q \in Pick({1, 5, 7}), lo \in Pick(1..3), hi \in Pick({30, 31, 32, 33, 34, 36}) :
            LET K == [j \in 1..(hi - lo + 1) |-> lo + j - 1] IN
            /\ n < MaxOps /\ n' = n + 1
            /\ hist' = hist \o [j \in DOMAIN K |-> [e |-> "set", d |-> d, q |-> q, k |-> K[j]]]
            /\ slot' = [slot EXCEPT ![d][q] = hi] /\ UNCHANGED <<names, live>>
GNext == GNew \/ GDel \/ GReg \/ GSel \/ GSet \/ GConst \/ GBulk
GSpec == GInit /\ [][GNext]_gvars
Emit == n = MaxOps /\ live # {} => PrintT("SCEN " \o ToJson(hist))
\* ---- properties ---------------------------------------------------------------
\* a slot holds what was put into it last, and only functions somebody put there
LastPut(d, q) == LET I == {i \in DOMAIN hist : (hist[i].e \in {"set", "const", "sel"} /\ hist[i].d = d /\ hist[i].q = q) \/ (hist[i].e = "new" /\ hist[i].d = d)}
                     NameAt(i, m) == LET R == {j \in 1..(i - 1) : hist[j].e = "reg" /\ hist[j].n = m} IN IF R = {} THEN 0 ELSE hist[CHOOSE j \in R : \A x \in R : x <= j].k
                     E == {i \in I : hist[i].e = "sel" => NameAt(i, hist[i].n) # 0}
                 IN IF E = {} THEN 0 ELSE LET i == CHOOSE i \in E : \A x \in E : x <= i IN
                    CASE hist[i].e = "new" -> 0 [] hist[i].e = "set" -> hist[i].k [] hist[i].e = "const" -> -hist[i].k [] OTHER -> NameAt(i, hist[i].n)
Routed == \A d \in live, q \in Q : slot[d][q] = LastPut(d, q)
==============================================================================
