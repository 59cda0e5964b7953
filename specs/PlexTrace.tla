------------------------------ MODULE PlexTrace ------------------------------
EXTENDS Plex, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<pvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
\* where PETSc chose the partition, the process that says it owns a cell
Part == IF ~Ev.ok \/ Ev.part # <<>> THEN Ev.part
        ELSE LET id == IdsOf([C |-> Ev.C, X |-> Ev.X], Ev.T) IN
             [i \in DOMAIN Ev.C |-> LET o == {r \in DOMAIN Ev.T : \E k \in DOMAIN id[r] : id[r][k] = i - 1 /\ Ev.T[r].own[k]} IN IF o = {} THEN -1 ELSE (CHOOSE r \in o : TRUE) - 1]
TInit == l = 1 /\ PInit
TNext == \/ Is("Begin") /\ grid' = None /\ tab' = <<>> /\ ids' = <<>> /\ tabs' = <<>>
         \/ Is("load") /\ PLoad(Ev.C, Ev.X, Part, Ev.np, Ev.nd, Ev.T, Ev.ok)
         \/ Is("setup") /\ PSetup(Ev.M, Ev.ok)
         \/ Is("move") /\ Move(Ev.op, Ev.nd, Ev.a, Ev.b, Ev.ok) /\ UNCHANGED <<ids, tabs>>
         \/ Is("Done") /\ UNCHANGED pvars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
