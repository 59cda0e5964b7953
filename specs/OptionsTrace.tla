---------------------------- MODULE OptionsTrace ------------------------------
EXTENDS Options, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceRules == {IOEnv.RULES}
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == l = 1 /\ Init0
TNext == \/ Is("Begin") /\ cmd' = [o \in {} |-> ""] /\ par' = [p \in Params |-> RowOf(p).d] /\ api' = [x \in Quantities \cup Conds |-> None] /\ st' = "none"
         \/ Is("put") /\ Put(Ev.o, Ev.v)
         \/ Is("new") /\ New(Ev.ok, Ev.seen)
         \/ Is("set") /\ SetP(Ev.p, Ev.v, Ev.ok, Ev.seen)
         \/ Is("from") /\ From(Ev.ok, Ev.seen)
         \/ Is("setup") /\ Setup(Ev.ok, Ev.seen)
         \/ Is("drive") /\ Drive(Ev.ok, Ev.seen)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
