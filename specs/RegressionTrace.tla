--------------------------- MODULE RegressionTrace ---------------------------
EXTENDS Regression, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == l = 1 /\ Init
TNext == \/ Is("Begin") /\ dy' = [d \in Dy |-> NoDy] /\ file' = [f \in File |-> NoFile]
         \/ Is("new") /\ New(Ev.d, Ev.own, Ev.th, Ev.n, Ev.f, Ev.ok)
         \/ Is("del") /\ Del(Ev.d)
         \/ Is("out") /\ Out(Ev.d, Ev.u, Ev.ok, Ev.files)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
