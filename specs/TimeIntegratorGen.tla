------------------------- MODULE TimeIntegratorGen --------------------------
(* Closed model of TimeIntegrator: exhaustive checking (hist kept empty) and
   generation of behaviours to be replayed into the code (hist recorded). *)
EXTENDS TimeIntegrator, TLC, Json

CONSTANTS Cfgs,      \* set of [cfg, d0]
          Incs,      \* run lengths (dyadics)
          Steps,     \* step sizes for SetStep
          MaxRuns, MaxSolves, MaxFails, \* bounds on the whole behaviour
          Record     \* keep the history and print it

VARIABLES hist, runs, solves, fails, nid, fin
gvars == <<vars, hist, runs, solves, fails, nid, fin>>

Rec(e) == hist' = IF Record THEN Append(hist, e) ELSE hist

GInit == \E x \in Cfgs :
  /\ cfg = x.cfg /\ base = x.d0 /\ time = Zero /\ step = 0 /\ st = 1 /\ mode = "idle"
  /\ target = Zero /\ fresh = TRUE /\ failed = FALSE /\ cuts = 0 /\ chkAt = 0 /\ outAt = 0
  /\ hist = IF Record THEN <<[e |-> "Begin", cfg |-> x.cfg, d0 |-> x.d0]>> ELSE <<>>
  /\ runs = 0 /\ solves = 0 /\ fails = 0 /\ nid = 2 /\ fin = FALSE

GSetStep == \E d \in Steps :
  /\ ~fin /\ runs < MaxRuns /\ runs > 0 /\ ~cfg.ts /\ Leq(d, cfg.max)
  /\ base # d
  /\ SetStep(d) /\ Rec([e |-> "SetStep", dt |-> d])
  /\ UNCHANGED <<runs, solves, fails, nid, fin>>
GRun == \E i \in Incs :
  /\ ~fin /\ runs < MaxRuns /\ IsD(Add(time, i))
  /\ Run(Add(time, i)) /\ Rec([e |-> "Run", target |-> Add(time, i)])
  /\ runs' = runs + 1
  /\ UNCHANGED <<solves, fails, nid, fin>>
DueDone == (ChkDue => chkAt = step) /\ (OutDue => outAt = step)
GSolve == \E oc \in {"C", "F"} :
  /\ mode = "run" /\ solves < MaxSolves /\ Lt(time, target) /\ DueDone
  /\ failed => (cfg.retry /\ cuts < MaxCuts)
  /\ oc = "F" => fails < MaxFails /\ ~cfg.ts
  /\ LET d == Min(base, Sub(target, time)) IN
     /\ oc = "C" => IsD(Add(time, d)) /\ IsD(Mul(cfg.growth, base))
     /\ oc = "F" => IsD(Mul(cfg.red, d))
     /\ Solve(d, st, st, oc, nid)
     /\ Rec([e |-> "Solve", dt |-> d, oc |-> oc])
  /\ nid' = IF oc = "C" THEN nid + 1 ELSE nid
  /\ solves' = solves + 1 /\ fails' = fails + (IF oc = "F" THEN 1 ELSE 0)
  /\ UNCHANGED <<runs, fin>>
GChk == /\ ~fin /\ Chk(time, step, st) /\ UNCHANGED <<hist, runs, solves, fails, nid, fin>>
GOut == /\ ~fin /\ Out(time, st) /\ UNCHANGED <<hist, runs, solves, fails, nid, fin>>
GEnd == /\ ~fin /\ \E ok \in BOOLEAN : RunEnd(ok, time, step, st, st)
        /\ Rec([e |-> "RunEnd"]) /\ UNCHANGED <<runs, solves, fails, nid, fin>>
GFin == /\ ~fin /\ fin' = TRUE
        /\ (mode = "idle" /\ runs = MaxRuns) \/ solves = MaxSolves
        /\ UNCHANGED <<vars, hist, runs, solves, fails, nid>>
GNext == GSetStep \/ GRun \/ GSolve \/ GChk \/ GOut \/ GEnd \/ GFin
GSpec == GInit /\ [][GNext]_gvars

Emit == (Record /\ fin) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
