---------------------------- MODULE FortranTrace -----------------------------
EXTENDS Fortran, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == l = 1 /\ Init
TNext == \/ Is("Begin") /\ names' = [n \in Name |-> 0] /\ live' = {} /\ slot' = [d \in Dy |-> Empty]
         \/ Is("new") /\ New(Ev.d, Ev.ok, Ev.seen)
         \/ Is("del") /\ Del(Ev.d, Ev.ok, Ev.seen)
         \/ Is("reg") /\ Register(Ev.n, Ev.k, Ev.ok, Ev.seen)
         \/ Is("sel") /\ Select(Ev.d, Ev.q, Ev.n, Ev.ok, Ev.seen)
         \/ Is("set") /\ Set(Ev.d, Ev.q, Ev.k, Ev.ok, Ev.seen)
         \/ Is("const") /\ Const(Ev.d, Ev.q, Ev.k, Ev.ok, Ev.seen)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
