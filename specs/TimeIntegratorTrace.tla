------------------------ MODULE TimeIntegratorTrace -------------------------
(* Accepts exactly the recorded executions that TimeIntegrator allows. *)
EXTENDS TimeIntegrator, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the rules of the property under check, e.g. "tile"
TraceRules == IF IOEnv.RULES = "all" THEN {"tile", "dt", "fail", "sched"} ELSE {IOEnv.RULES}

VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1

TInit == /\ l = 1 /\ cfg = [growth |-> D(1, 0), red |-> D(1, 0), max |-> D(1, 0), retry |-> TRUE, ts |-> FALSE, chk |-> 0, out |-> 0]
         /\ base = D(1, 0) /\ time = Zero /\ step = 0 /\ st = 1 /\ mode = "idle"
         /\ target = Zero /\ fresh = TRUE /\ failed = FALSE /\ cuts = 0 /\ chkAt = 0 /\ outAt = 0
TNext == \/ Is("Begin") /\ Start(Ev.cfg, Ev.d0)
         \/ Is("SetStep") /\ SetStep(Ev.dt)
         \/ Is("Run") /\ Run(Ev.target)
         \/ Is("Solve") /\ Solve(Ev.dt, Ev.prev, Ev.guess, Ev.oc, Ev.new)
         \/ Is("Chk") /\ Chk(Ev.t, Ev.step, Ev.st)
         \/ Is("Out") /\ Out(Ev.t, Ev.st)
         \/ Is("TsAt") /\ TsAt(Ev.t, Ev.st)
         \/ Is("RunEnd") /\ RunEnd(Ev.ok, Ev.time, Ev.step, Ev.st, Ev.cur)
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
