------------------------------- MODULE Slots --------------------------------
(* Material properties, sources and conditions of several live dycores.
   Every quantity ("slot") of every instance holds one setting; the value at a
   point is a function of the setting alone.

   Slots: 1 porosity 2 permeability 3 thermal conductivity 4 residual saturation
   5 soil density 6 soil specific heat 7 saline diffusivity 8 saline molecular
   weight 9 forcing 10 energy forcing 11 salinity source 12 boundary pressure
   13 boundary pressure type 14 boundary velocity 15 boundary temperature
   16 boundary saline concentration

   Settings: [f, k] where f is the way it was set and k selects the value:
     u unset   d driver default   o command-line value 10k
     kc,ic,dc,tc   constants (scalar, isotropic, diagonal, full tensor)
     kf,if,df,tf   functions of space number k      f,n,x scalar/tensor function k
     c             constant condition
   (n: function chosen by name; x: function with a user context)            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Rules   \* subset of {"value", "ctx", "name", "driver"}

Slot == 1..16
Material == 1..8
Tensor == {2, 3, 7}
On(r) == r \in Rules

VARIABLES live,   \* instances alive
          val,    \* [instance -> [Slot -> setting]]
          own,    \* [instance -> [Slot -> id of the context to be released, 0: none]]
          opt,    \* [instance -> [Slot -> k of the value given on the command line, 0: none]]
          info    \* [instance -> [disc, mode, up (setup done)]]
vars == <<live, val, own, opt, info>>

Unset == [f |-> "u", k |-> 0]

\* ---- the value of a setting at the two probe points ------------------------
Comp(k, p, c) == (IF c % 4 = 0 THEN 5000 ELSE 0) + 100 * k + 10 * p + c
Scal(k, p) == 100 * k + 10 * p
Diagonal(D(_)) == [c \in 1..9 |-> IF (c - 1) % 4 = 0 THEN D(c - 1) ELSE 0]
TensorAt(s, p) ==
  LET k == s.k
      Iso(c) == Scal(k, p)   DefD(c) == -2   Opt(c) == 10 * k
      DF(c) == Comp(k, p, c) DC(c) == Comp(k, 0, c) IC(c) == 10 * k
  IN CASE s.f = "ic" -> Diagonal(IC) [] s.f = "o" -> Diagonal(Opt) [] s.f = "d" -> Diagonal(DefD)
       [] s.f = "if" -> Diagonal(Iso) [] s.f = "dc" -> Diagonal(DC) [] s.f = "df" -> Diagonal(DF)
       [] s.f = "tc" -> [c \in 1..9 |-> Comp(k, 0, c - 1)]
       [] s.f \in {"tf", "x"} -> [c \in 1..9 |-> Comp(k, p, c - 1)]
ScalarAt(q, s, p) ==
  CASE s.f \in {"kc", "c", "o"} -> 10 * s.k
    [] s.f = "d" -> -2
    [] OTHER -> IF q = 13 THEN (s.k + p) % 3 ELSE Scal(s.k, p)
ValueOf(q, s) == IF s.f = "u" THEN <<>>
                 ELSE IF q \in Tensor THEN TensorAt(s, 1) \o TensorAt(s, 2)
                 ELSE <<ScalarAt(q, s, 1), ScalarAt(q, s, 2)>>

\* ---- observations ----------------------------------------------------------
Range(s) == {s[j] : j \in DOMAIN s}
\* snap: sequence of [i, v]; v[q] is what the code yields for slot q
SnapOk(snap) ==
  /\ {snap[j].i : j \in DOMAIN snap} = live'
  /\ \A j \in DOMAIN snap : \A q \in Slot : snap[j].v[q] = ValueOf(q, val'[snap[j].i][q])
SlotOk(i, q, snap) == \A j \in DOMAIN snap : snap[j].i = i => snap[j].v[q] = ValueOf(q, val'[i][q])
\* exactly the contexts in S are released by the call, each once, and no
\* released context is used afterwards
Released(S, rel, stale) == Range(rel) = S /\ Len(rel) = Cardinality(S) /\ stale = 0
Owned(i, Q) == {own[i][q] : q \in Q} \ {0}
Obs(S, rel, stale, snap) == /\ On("ctx") => Released(S, rel, stale)
                            /\ On("value") => SnapOk(snap)

\* ---- actions ---------------------------------------------------------------
New(i, disc, mode, o, rel, stale, snap) ==
  /\ i \notin live
  /\ live' = live \cup {i}
  /\ val' = [val EXCEPT ![i] = [q \in Slot |-> IF q > 8 /\ o[q] > 0 THEN [f |-> "o", k |-> o[q]] ELSE Unset]]
  /\ own' = [own EXCEPT ![i] = [q \in Slot |-> 0]]
  /\ opt' = [opt EXCEPT ![i] = o]
  /\ info' = [info EXCEPT ![i] = [disc |-> disc, mode |-> mode, up |-> FALSE]]
  /\ Obs({}, rel, stale, snap)
\* any way of setting slot q of instance i; ok = FALSE only for an unknown name
Set(i, q, f, k, id, ok, rel, stale, snap) ==
  /\ i \in live
  /\ LET known == ~(f = "n" /\ k = 0)
         drop == IF known THEN Owned(i, {q}) ELSE {} IN
     /\ val' = IF known THEN [val EXCEPT ![i][q] = [f |-> f, k |-> k]] ELSE val
     /\ own' = IF known THEN [own EXCEPT ![i][q] = id] ELSE own
     /\ UNCHANGED <<live, opt, info>>
     /\ On("value") \/ On("name") => ok = known
     /\ On("name") => SlotOk(i, q, snap)
     /\ Obs(drop, rel, stale, snap)
Del(i, ok, rel, stale, snap) ==
  /\ i \in live
  /\ live' = live \ {i}
  /\ UNCHANGED <<val, own, opt, info>>
  /\ On("ctx") => ok
  /\ Obs(Owned(i, Slot), rel, stale, snap)
\* setup, by TDySetup or by the driver (which first completes what is unset)
Needs(mode) == {1, 2, 4} \cup (IF mode = 1 THEN {3, 5, 6} ELSE IF mode = 2 THEN {7, 8} ELSE {})
Completed(i) == [q \in Slot |-> IF q \in Needs(info[i].mode) /\ val[i][q].f = "u"
                                THEN (IF opt[i][q] > 0 THEN [f |-> "o", k |-> opt[i][q]] ELSE [f |-> "d", k |-> 0])
                                ELSE val[i][q]]
\* what the discretization keeps: FV_TPF has no storage for the saline properties
Kept(i) == IF info[i].disc = "FV_TPF" THEN 1..6 ELSE Material
Setup(i, drv, cache, ok, rel, stale, snap) ==
  /\ i \in live /\ ~info[i].up
  /\ val' = IF drv THEN [val EXCEPT ![i] = Completed(i)] ELSE val
  /\ info' = [info EXCEPT ![i].up = TRUE]
  /\ UNCHANGED <<live, own, opt>>
  /\ On("value") => /\ ok
                    /\ \A q \in Kept(i) : cache[q] = ValueOf(q, val'[i][q])
  /\ Obs({}, rel, stale, snap)
=============================================================================
