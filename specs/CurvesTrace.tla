----------------------------- MODULE CurvesTrace ------------------------------
EXTENDS Curves, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceRules == {IOEnv.RULES}
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == l = 1 /\ Init0(0..0)
TNext == \/ Is("Begin") /\ sat' = [p \in 0..Ev.n - 1 |-> None] /\ kr' = [p \in 0..Ev.n - 1 |-> None]
         \/ Is("as") /\ Assign(Ev.q, Ev.t, Ev.p, Ev.m)
         \/ Is("look") /\ Look(Ev.r, Ev.ord, Ev.sa, Ev.so, Ev.ka, Ev.ko)
         \/ Is("dy") /\ Dycore(Ev.c, Ev.m)
         \/ Is("up") /\ Update(Ev.r, Ev.s, Ev.k, Ev.bnd)
         \/ Is("sweep") /\ Sweep(Ev.p, Ev.sout, Ev.sdec, Ev.kout, Ev.kdec)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
