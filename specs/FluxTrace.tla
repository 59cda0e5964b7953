------------------------------ MODULE FluxTrace ------------------------------
EXTENDS Flux, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Opened == IF Ev.lattice THEN Problem(Ev.kind, Ev.src, Ev.np, Ev.G, Ev.C, Ev.X, Ev.k, Ev.phi4, Ev.bf, Ev.bp, Ev.bt, Ev.ot) ELSE Unknown(Ev.kind, Ev.np, Ev.C)
TInit == l = 1 /\ Init
TNext == \/ Is("Begin") /\ run' = NoRun /\ prev' = <<>> /\ base' = {}
         \/ Is("open") /\ Ev.ok /\ Open(Opened)
         \/ Is("prev") /\ Ev.ok /\ Prev(Ev.u)
         \/ Is("res") /\ Answer(Ev.u, Ev.r, Ev.ok, Ev.ref)
         \/ Is("jac") /\ AnswerJ(Ev.u, Elems(Ev.j), Ev.ok, Elems(Ev.ref))
         \/ Is("sum") /\ Balance(Ev.def, Ev.flow, Ev.ok, Ev.q, Ev.ref)
         \/ Is("near") /\ Reach(Ev.c, Elems(Ev.moved), Ev.ok)
         \/ Is("fd") /\ Differences(Ev.err, Ev.ok)
         \/ Is("run") /\ Steps(Ev.sol, Ev.ref, Ev.steps, Ev.rsteps, Ev.lost, Ev.ok)
         \/ Is("close") /\ Ev.ok /\ Close
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
