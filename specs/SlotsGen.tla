------------------------------ MODULE SlotsGen ------------------------------
(* Closed model of Slots for checking and for generating behaviours. *)
EXTENDS Slots, TLC, Json
CONSTANTS Inst,      \* instances
          Choices,   \* <<slot, form>> pairs that may be set
          K,         \* values
          Discs, Modes, MaxOps, Optional, WithSetup, Record
VARIABLES hist, n, nid, dead, everx, last, fin
gvars == <<vars, hist, n, nid, dead, everx, last, fin>>

NoOpt == [q \in Slot |-> 0]
OptSlots == {1, 2, 3, 4, 5, 6, 12, 14, 15}
Opts == {NoOpt} \cup (IF Optional THEN UNION {{[q \in Slot |-> IF q \in {a, b} THEN k ELSE 0] : k \in K} : a \in OptSlots, b \in OptSlots} ELSE {})
Clean(S) == [j \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = j - 1]
View(v, L) == [j \in 1..Cardinality(L) |-> LET i == Clean(L)[j] IN [i |-> i, v |-> [q \in Slot |-> ValueOf(q, v[i][q])]]]
Rec(e) == hist' = IF Record THEN Append(hist, e) ELSE hist
Ops == n < MaxOps /\ ~fin /\ n' = n + 1 /\ UNCHANGED fin

GInit == /\ live = {} /\ val = [i \in Inst |-> [q \in Slot |-> Unset]] /\ own = [i \in Inst |-> NoOpt]
         /\ opt = own /\ info = [i \in Inst |-> [disc |-> "", mode |-> 0, up |-> FALSE]]
         /\ hist = <<>> /\ n = 0 /\ nid = 1 /\ dead = {} /\ everx = {} /\ last = [q |-> 0] /\ fin = FALSE
GNew == \E i \in Inst, d \in Discs, m \in Modes, o \in Opts :
  /\ Ops /\ (d = "FV_TPF" => m = 0) /\ i \notin live
  /\ (i > 0 => i - 1 \in live)
  /\ LET v == [val EXCEPT ![i] = [q \in Slot |-> IF q > 8 /\ o[q] > 0 THEN [f |-> "o", k |-> o[q]] ELSE Unset]]
     IN New(i, d, m, o, <<>>, 0, View(v, live \cup {i}))
  /\ Rec([e |-> "new", i |-> i, disc |-> d, mode |-> m, o |-> o]) /\ last' = [q |-> 0]
  /\ UNCHANGED <<nid, dead, everx>>
Free(i, q) == Owned(i, {q})
GSet == \E i \in live, c \in Choices, k \in K \cup {0} :
  LET q == c[1] f == c[2] IN
  /\ Ops /\ f # "x" /\ (k = 0 => f = "n") /\ ~info[i].up
  /\ LET v == IF k = 0 THEN val ELSE [val EXCEPT ![i][q] = [f |-> f, k |-> k]]
         S == IF k = 0 THEN {} ELSE Free(i, q)
     IN /\ Set(i, q, f, k, 0, k > 0, Clean(S), 0, View(v, live)) /\ dead' = dead \cup S
        /\ last' = IF k = 0 THEN [q |-> 0] ELSE [i |-> i, q |-> q, s |-> [f |-> f, k |-> k]]
  /\ Rec([e |-> "set", i |-> i, p |-> q, f |-> f, k |-> k]) /\ UNCHANGED <<nid, everx>>
GCtx == \E i \in live, c \in Choices, k \in K, d \in {0, 1} :
  LET q == c[1] IN
  /\ Ops /\ c[2] = "x" /\ ~info[i].up
  /\ Set(i, q, "x", k, nid * d, TRUE, Clean(Free(i, q)), 0, View([val EXCEPT ![i][q] = [f |-> "x", k |-> k]], live))
  /\ dead' = dead \cup Free(i, q) /\ everx' = IF d = 1 THEN everx \cup {nid} ELSE everx
  /\ last' = [i |-> i, q |-> q, s |-> [f |-> "x", k |-> k]]
  /\ Rec([e |-> "ctx", i |-> i, p |-> q, k |-> k, id |-> nid, dtor |-> d]) /\ nid' = nid + 1
GDel == \E i \in live :
  /\ Ops /\ Del(i, TRUE, Clean(Owned(i, Slot)), 0, View(val, live \ {i}))
  /\ dead' = dead \cup Owned(i, Slot) /\ last' = [q |-> 0]
  /\ Rec([e |-> "del", i |-> i]) /\ UNCHANGED <<nid, everx>>
GSetup == \E i \in live, drv \in BOOLEAN :
  /\ Ops /\ WithSetup /\ ~info[i].up
  /\ (~drv => \A q \in {1, 2, 4} : val[i][q].f # "u")
  /\ LET v == IF drv THEN [val EXCEPT ![i] = Completed(i)] ELSE val
     IN Setup(i, drv, [q \in Slot |-> ValueOf(q, v[i][q])], TRUE, <<>>, 0, View(v, live))
  /\ last' = [q |-> 0]
  /\ Rec([e |-> IF drv THEN "drv" ELSE "setup", i |-> i]) /\ UNCHANGED <<nid, dead, everx>>
GFin == /\ ~fin /\ n = MaxOps /\ fin' = TRUE /\ UNCHANGED <<vars, hist, n, nid, dead, everx, last>>
GNext == GNew \/ GSet \/ GCtx \/ GDel \/ GSetup \/ GFin
GSpec == GInit /\ [][GNext]_gvars

\* ---- what the specification promises ---------------------------------------
\* every context registered with a destructor is either held by exactly one slot or released
Conserved == LET held == UNION {Owned(i, Slot) : i \in live} IN held \cap dead = {} /\ everx = held \cup dead
OneHolder == \A i, j \in live : \A p, q \in Slot : own[i][p] # 0 /\ own[i][p] = own[j][q] => i = j /\ p = q
LastWins == last.q # 0 => val[last.i][last.q] = last.s
\* a step changes at most one slot of one instance, except creation, destruction and setup
Isolated == [][live' = live /\ info' = info => Cardinality({<<i, q>> \in live \X Slot : val'[i][q] # val[i][q]}) <= 1]_gvars
ReleasedOnce == [][\A i \in live : (Owned(i, Slot) \ dead) \subseteq (dead' \cup UNION {{own'[j][q] : q \in Slot} : j \in live'})]_gvars
Emit == (Record /\ fin) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
