--------------------------- MODULE DistributeTrace ---------------------------
EXTENDS Distribute, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<dvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
\* the process that says it owns a cell, where the partitioner chose
Owner(T, i) == LET o == {r \in DOMAIN T : \E k \in 1..T[r].nl : T[r].nat[k] = i} IN IF o = {} THEN -1 ELSE (CHOOSE r \in o : TRUE) - 1
Part == IF ~Ev.ok \/ Ev.part # <<>> THEN Ev.part ELSE [i \in DOMAIN Ev.C |-> Owner(Ev.T, i - 1)]
TInit == l = 1 /\ DInit
TNext == \/ Is("Begin") /\ grid' = None /\ tab' = <<>>
         \/ Is("load") /\ Load(Ev.C, Ev.X, Part, Ev.np, Ev.T, Ev.M, Ev.ok)
         \/ Is("move") /\ Move(Ev.op, Ev.nd, Ev.a, Ev.b, Ev.ok)
         \/ Is("Done") /\ UNCHANGED dvars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
