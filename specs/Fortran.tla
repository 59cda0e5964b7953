------------------------------ MODULE Fortran --------------------------------
(* The Fortran interface: spatial functions written in Fortran, the registry of
   their names, and the quantities of the live dycores they are set for.

   Functions: 1..40 scalar (40 reports an error when it is called), 41..42
   vector, 51..52 tensor valued; integer functions 1..36 are numbered apart.
   Quantities: 1 porosity, 2 residual saturation, 3 forcing, 4 energy forcing,
   5 boundary pressure, 6 boundary velocity, 7 boundary pressure type (an
   integer function), 8 permeability, 9 thermal conductivity, 10 soil density,
   11 boundary temperature.
   A slot holds 0 (nothing), a function, or minus a constant.                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rules, Name, Dy
Q == 1..11
On == "route" \in Rules
Failing == 40
VARIABLES names,  \* [Name -> function], 0: never registered
          live,   \* set of dycores
          slot    \* [Dy -> [Q -> setting]]
vars == <<names, live, slot>>
Empty == [q \in Q |-> 0]
Init == names = [n \in Name |-> 0] /\ live = {} /\ slot = [d \in Dy |-> Empty]
\* what calling the function of a slot gives: 998 stands for an error
Gives(q, v) == IF v = Failing /\ q # 7 THEN 998 ELSE v
Sees(lv, sl) == {[d |-> d, v |-> [q \in Q |-> Gives(q, sl[d][q])]] : d \in lv}
\* observed: every quantity of every live dycore, computed
Obs(ok, want, o) == On => /\ ok = want
                          /\ {o[j] : j \in DOMAIN o} = Sees(live', slot')
New(d, ok, o) == /\ d \notin live /\ live' = live \cup {d} /\ slot' = [slot EXCEPT ![d] = Empty] /\ UNCHANGED names
                 /\ Obs(ok, TRUE, o)
Del(d, ok, o) == /\ d \in live /\ live' = live \ {d} /\ UNCHANGED <<names, slot>> /\ Obs(ok, TRUE, o)
Register(n, k, ok, o) == names' = [names EXCEPT ![n] = k] /\ UNCHANGED <<live, slot>> /\ Obs(ok, TRUE, o)
\* the function that bears the name now; later registrations do not change the slot
Select(d, q, n, ok, o) ==
  /\ d \in live /\ UNCHANGED <<names, live>>
  /\ slot' = IF names[n] = 0 THEN slot ELSE [slot EXCEPT ![d][q] = names[n]]
  /\ Obs(ok, names[n] # 0, o)
Set(d, q, k, ok, o) == d \in live /\ slot' = [slot EXCEPT ![d][q] = k] /\ UNCHANGED <<names, live>> /\ Obs(ok, TRUE, o)
Const(d, q, k, ok, o) == d \in live /\ slot' = [slot EXCEPT ![d][q] = -k] /\ UNCHANGED <<names, live>> /\ Obs(ok, TRUE, o)
==============================================================================
