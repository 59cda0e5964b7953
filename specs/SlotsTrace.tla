----------------------------- MODULE SlotsTrace ------------------------------
EXTENDS Slots, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceRules == IF IOEnv.RULES = "all" THEN {"value", "ctx", "name"} ELSE {IOEnv.RULES}
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
I == 0..3
Nil == [q \in Slot |-> 0]
TInit == /\ l = 1 /\ live = {} /\ val = [i \in I |-> [q \in Slot |-> Unset]] /\ own = [i \in I |-> Nil] /\ opt = own
         /\ info = [i \in I |-> [disc |-> "", mode |-> 0, up |-> FALSE]]
TNext == \/ Is("Begin") /\ live' = {} /\ UNCHANGED <<val, own, opt, info>>
         \/ Is("New") /\ New(Ev.i, Ev.disc, Ev.mode, Ev.o, Ev.rel, Ev.stale, Ev.snap)
         \/ Is("Set") /\ Set(Ev.i, Ev.p, Ev.f, Ev.k, 0, Ev.ok, Ev.rel, Ev.stale, Ev.snap)
         \/ Is("Ctx") /\ Set(Ev.i, Ev.p, "x", Ev.k, Ev.id * Ev.dtor, Ev.ok, Ev.rel, Ev.stale, Ev.snap)
         \/ Is("Del") /\ Del(Ev.i, Ev.ok, Ev.rel, Ev.stale, Ev.snap)
         \/ Is("Setup") /\ Setup(Ev.i, Ev.drv, Ev.cache, Ev.ok, Ev.rel, Ev.stale, Ev.snap)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
