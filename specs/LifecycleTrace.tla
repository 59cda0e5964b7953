--------------------------- MODULE LifecycleTrace -----------------------------
EXTENDS Lifecycle, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceRules == {IOEnv.RULES}
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TInit == l = 1 /\ Init0(0..1)
TNext == \/ Is("Begin") /\ dy' = [i \in 0..1 |-> Dead] /\ cli' = [mode |-> -1, disc |-> -1, mesh |-> 0, out |-> FALSE]
         \/ Is("new") /\ New(Ev.i, Ev.ok, Ev.v)
         \/ Is("mode") /\ SetMode(Ev.i, Ev.a, Ev.ok, Ev.v)
         \/ Is("disc") /\ SetDisc(Ev.i, Ev.a, Ev.ok, Ev.v)
         \/ Is("ctor") /\ SetCtor(Ev.i, Ev.a, Ev.ok, Ev.v)
         \/ Is("cli") /\ Cli(Ev.a, Ev.b, Ev.v)
         \/ Is("mesh") /\ MeshFile(Ev.a, Ev.v)
         \/ Is("out") /\ OutMesh(Ev.a = 1, Ev.v)
         \/ Is("from") /\ From(Ev.i, Ev.ok, Ev.v)
         \/ Is("set") /\ SetQuantity(Ev.i, Ev.a, Ev.ok, Ev.v)
         \/ Is("setup") /\ Setup(Ev.i, Ev.ok, Ev.v)
         \/ Is("init") /\ Driver(Ev.i, Ev.b, Ev.ok, Ev.v)
         \/ Is("run") /\ Run(Ev.i, Ev.ok, Ev.v)
         \/ Is("step") /\ TimeStep(Ev.i, Ev.ok, Ev.v)
         \/ Is("ask") /\ Ask(Ev.i, Ev.a, Ev.len, Ev.ok, Ev.v)
         \/ Is("del") /\ Del(Ev.i, Ev.ok, Ev.v)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
