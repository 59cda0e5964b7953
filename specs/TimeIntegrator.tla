--------------------------- MODULE TimeIntegrator ---------------------------
(* The time integrator as its user sees it: a clock, a planned step size, an
   accepted state, and runs to target times made of nonlinear solves that may
   fail. Every action takes what is observable about it as parameters; the
   rules of the properties are separate conjuncts, so that a trace can be
   judged against one property at a time.
     "tile"  C06  clock and coverage of the interval
     "dt"    C07  step size control
     "fail"  C08  isolation of failed solves, bounded retries
     "sched" C09  checkpoint and output schedule                            *)
EXTENDS Integers, Sequences, FiniteSets, Dyadic

CONSTANTS Rules, MaxCuts

VARIABLES cfg,      \* growth, red, max (dyadics), retry, ts, chk, out
          time,     \* simulation clock
          step,     \* completed steps
          st,       \* accepted state (identifier of the solve that produced it)
          base,     \* planned step size
          mode,     \* "idle" or "run"
          target, fresh, \* target of the run; no step completed yet in it
          failed,   \* the last attempt of this run failed
          cuts,     \* failures in this run
          chkAt, outAt  \* last step checkpointed / output
vars == <<cfg, time, step, st, base, mode, target, fresh, failed, cuts, chkAt, outAt>>

Zero == D(0, 0)
ON(r) == r \in Rules

Start(c, d0) ==
  /\ cfg' = c /\ base' = d0 /\ time' = Zero /\ step' = 0 /\ st' = 1 /\ mode' = "idle"
  /\ target' = Zero /\ fresh' = TRUE /\ failed' = FALSE /\ cuts' = 0 /\ chkAt' = 0 /\ outAt' = 0

SetStep(d) ==
  /\ mode = "idle"
  /\ base' = d
  /\ UNCHANGED <<cfg, time, step, st, mode, target, fresh, failed, cuts, chkAt, outAt>>

Run(t) ==
  /\ mode = "idle"
  /\ mode' = "run" /\ target' = t /\ fresh' = TRUE /\ failed' = FALSE /\ cuts' = 0
  /\ UNCHANGED <<cfg, time, step, st, base, chkAt, outAt>>

ChkDue == cfg.chk > 0 /\ step > 0 /\ step % cfg.chk = 0
OutDue == cfg.out > 0 /\ step > 0 /\ step % cfg.out = 0

\* One nonlinear solve asked to advance the previous state p by d from the guess
\* g; oc is its outcome and s the state it leaves in the solution vector.
Solve(d, p, g, oc, s) ==
  /\ mode = "run"
  /\ ON("tile") => /\ Pos(d) /\ Lt(time, target)
                   /\ IsD(Add(time, d)) => Leq(Add(time, d), target)
                   /\ p = st
  /\ ON("dt") => cfg.ts \/ ~IsD(Sub(target, time)) \/ d = Min(base, Sub(target, time))
  /\ ON("fail") => /\ p = st
                   \* without retries a failed run leaves its last iterate as the guess
                   /\ g = st \/ (fresh /\ ~cfg.retry)
                   /\ failed => cfg.retry
                   /\ cuts < MaxCuts
  /\ ON("sched") => /\ ChkDue => chkAt = step
                    /\ OutDue => outAt = step
  /\ IF oc = "S" THEN UNCHANGED <<time, step, st, base, failed, cuts, fresh>>  \* end of the observation
     ELSE IF oc = "C"
     THEN /\ time' = Add(time, d) /\ step' = step + 1 /\ st' = s /\ failed' = FALSE /\ fresh' = FALSE
          \* d < base only if the step was shortened to hit the target
          /\ base' = Min(cfg.max, Mul(cfg.growth, base))
          /\ UNCHANGED cuts
     ELSE /\ failed' = TRUE /\ cuts' = cuts + 1
          /\ base' = Mul(cfg.red, d)
          /\ UNCHANGED <<time, step, st, fresh>>
  /\ UNCHANGED <<cfg, mode, target, chkAt, outAt>>

\* A checkpoint file named for t with step number n and state s appears.
Chk(t, n, s) ==
  /\ ON("sched") => /\ mode = "run" /\ ~fresh /\ cfg.chk > 0 /\ n = step /\ t = time /\ s = st
                    /\ chkAt # step
                    /\ ChkDue \/ (time = target /\ ~failed)
  /\ chkAt' = n
  /\ UNCHANGED <<cfg, time, step, st, base, mode, target, fresh, failed, cuts, outAt>>

\* An output file for t with state s appears.
Out(t, s) ==
  /\ ON("sched") => /\ mode = "run" /\ ~fresh /\ OutDue /\ t = time /\ s = st /\ outAt # step
  /\ outAt' = step
  /\ UNCHANGED <<cfg, time, step, st, base, mode, target, fresh, failed, cuts, chkAt>>

\* The run returns: ok or error, clock t, step count n, accepted state s and
\* solution vector c.
RunEnd(ok, t, n, s, c) ==
  /\ mode = "run"
  /\ ON("tile") => /\ ok => (t = target /\ time = target) \/ (fresh /\ Leq(target, time) /\ t = time)
                   /\ ok => ~failed
                   /\ t = time /\ s = st
  /\ ON("fail") => /\ t = time /\ s = st
                   /\ cfg.ts \/ n = step
                   /\ ok = ~failed
                   /\ failed => (~cfg.retry \/ cuts = MaxCuts)
                   /\ (failed /\ ~cfg.retry) => cuts = 1
                   /\ (cfg.retry \/ (ok /\ ~fresh)) => c = st
  /\ ON("sched") => /\ ChkDue => chkAt = step
                    /\ OutDue => outAt = step
                    /\ (ok /\ cfg.chk > 0 /\ ~fresh) => chkAt = step
  /\ mode' = "idle" /\ time' = t /\ st' = s /\ failed' = FALSE
  /\ step' = IF cfg.ts THEN step ELSE n
  /\ UNCHANGED <<cfg, base, target, fresh, cuts, chkAt, outAt>>

\* PETSc's own time stepper reports the state s at time t.
TsAt(t, s) ==
  /\ cfg.ts /\ mode = "run"
  /\ ON("tile") => t = time /\ s = st
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* Design properties, checked exhaustively on the specification itself.
ClockInRange == mode = "run" => (fresh \/ Leq(time, target))
BoundedCuts  == cuts <= MaxCuts
StateIsLastStep == st = step + 1 \/ cfg.ts
ChkBehind    == chkAt <= step /\ outAt <= step
\* completed steps never decrease the planned step unless the cap does
GrowOrCap    == [][(step' = step + 1) => (Leq(base, base') \/ base' = cfg.max)]_vars
\* a failure changes nothing but the planned step and the failure count
FailIsolated == [][(cuts' = cuts + 1) => UNCHANGED <<time, step, st, chkAt, outAt>>]_vars
\* a run that returns without error is exactly at its target
EndsAtTarget == [][(mode = "run" /\ mode' = "idle" /\ ~failed /\ ~fresh) => time' = target]_vars
ClockMonotone == [][Leq(time, time') \/ (mode = "idle" /\ time' = Zero)]_vars
=============================================================================
