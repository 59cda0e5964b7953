---------------------------- MODULE LibraryTrace -----------------------------
EXTENDS Library, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceRules == IF IOEnv.RULES = "all" THEN {"reg", "hook", "stage"} ELSE {IOEnv.RULES}
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == l = 1 /\ Down(0..1, 1..64)
TNext == \/ Is("Begin") /\ ~up /\ UNCHANGED vars
         \/ Is("Init") /\ Init_(Ev.t, Ev.ok, Ev)
         \/ Is("Hook") /\ Hook(Ev.h, Ev.ok, Ev)
         \/ Is("Fin") /\ Fin(Ev.calls, Ev.petsc, Ev, Ev.ok, Ev)
         \/ Is("Reg") /\ Register(Ev.n, Ev.f, Ev.ok, Ev)
         \/ Is("Many") /\ RegisterMany(Ev.lo, Ev.hi, Ev.ok, Ev)
         \/ Is("New") /\ New(Ev.i, Ev.disc, Ev.mode, Ev.cells, Ev.o, Ev.ok, Ev)
         \/ Is("Sel") /\ Select(Ev.i, Ev.c, Ev.n, Ev.ok, Ev)
         \/ Is("SetF") /\ SetDirect(Ev.i, Ev.c, Ev.k, Ev.ok, Ev)
         \/ Is("Del") /\ Del(Ev.i, Ev.ok, Ev)
         \/ Is("Enable") /\ Enable(Ev.ok, Ev)
         \/ Is("Stage") /\ AddStage(Ev.n, Ev.ok, Ev)
         \/ Is("Enter") /\ Enter(Ev.n, Ev)
         \/ Is("Exit") /\ Exit(Ev.n, Ev)
         \/ Is("Tick") /\ Tick(Ev.t, Ev.times, Ev)
         \/ Is("Setup") /\ Setup(Ev.i, Ev.at, Ev.ok, Ev)
         \/ Is("Write") /\ Write(Ev, Ev.ok, Ev)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
