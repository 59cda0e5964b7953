------------------------------ MODULE Library -------------------------------
(* A process's sessions of the library: initialization and finalization,
   shutdown hooks, the registry of named functions and selection by name for
   the conditions of the live dycores, profiling stages, timers and the timing
   profile.

   Names 1..N, functions 1..F (0: none), conditions 1..6 (3..5 selectable on
   the command line), stages 1..S by name (1 is PETSc's main stage, 2..4 the
   library's own), timers 1..3 (timer 3 is recorded once by every hook).      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Rules,   \* subset of {"reg", "hook", "stage"}
          N, F, S, T
On(r) == r \in Rules
Cond == 1..6
Name == 1..N
Stage == 1..S
Builtin == {1, 2, 3, 4}

VARIABLES up,      \* a session is open
          names,   \* [Name -> function]
          bulk,    \* set of further registered names
          hooks,   \* sequence of user hooks
          regAt,   \* number of hooks registered before the first function (-1: none yet)
          live,    \* set of live dycores
          cond,    \* [dycore -> [Cond -> setting]]: 0 unset, 1..F function, >100 constant
          kind,    \* [dycore -> [disc, mode, cells]]
          timed,   \* timing enabled
          known,   \* stages that have been added
          stack,   \* stages entered and not left (innermost last)
          cnt,     \* [Stage -> [timer -> recorded count]]
          md       \* [address -> metadata last recorded for a dycore there; <<>> none]
vars == <<up, names, bulk, hooks, regAt, live, cond, kind, timed, known, stack, cnt, md>>
reg  == <<names, bulk, regAt>>
prof == <<timed, known, stack, cnt, md>>
dys  == <<live, cond, kind>>

NoNames == [n \in Name |-> 0]
NoCnt == [s \in Stage |-> [t \in 1..T |-> 0]]
NoCond == [c \in Cond |-> 0]
NoKind == [disc |-> 0, mode |-> 0, cells |-> 0]
Inner(st) == IF st = <<>> THEN 1 ELSE st[Len(st)]

Down(Dy, Addr) ==
  /\ up = FALSE /\ names = NoNames /\ bulk = {} /\ hooks = <<>> /\ regAt = -1 /\ live = {}
  /\ cond = [d \in Dy |-> NoCond] /\ kind = [d \in Dy |-> NoKind]
  /\ timed = FALSE /\ known = Builtin /\ stack = <<>> /\ cnt = NoCnt /\ md = [a \in Addr |-> <<>>]

\* ---- observations ------------------------------------------------------------
\* o.up, o.look[n], o.bulk (number of further names found right), o.cond, o.cur, o.cnt
Same(f, seq) == \A j \in DOMAIN seq : seq[j] = f[j]
Obs(o) ==
  /\ o.up = up'
  /\ On("reg") /\ up' => /\ Same(names', o.look)
                         /\ o.bulk = Cardinality(bulk')
                         /\ \A j \in DOMAIN o.cond : Same(cond'[o.cond[j].i], o.cond[j].v)
                         /\ {o.cond[j].i : j \in DOMAIN o.cond} = live'
  /\ On("stage") /\ up' => /\ o.cur = Inner(stack')
                           /\ o.dup = 0      \* one stage per name
                           /\ \A s \in Stage : Same(cnt'[s], o.cnt[s])

\* ---- sessions ----------------------------------------------------------------
\* initializing while a session is open changes nothing
Init_(t, ok, o) ==
  /\ up' = TRUE
  /\ timed' = IF up THEN timed ELSE (t = 1)
  /\ UNCHANGED <<reg, hooks, dys, known, stack, cnt, md>>
  /\ On("hook") => ok
  \* nothing survives from an earlier session
  /\ On("hook") /\ ~up => o.left = 0 /\ o.bulk = 0 /\ Same(NoNames, o.look)
  /\ Obs(o)
Hook(h, ok, o) ==
  /\ up /\ hooks' = Append(hooks, h)
  /\ UNCHANGED <<up, reg, dys, prof>>
  /\ On("hook") => ok
  /\ Obs(o)
Reversed(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
\* the profile f: [file, nmd, md, prof]
Written(f, c) ==
  IF ~timed THEN ~f.file
  ELSE /\ f.file
       /\ \A s \in Stage : Same(c[s], f.prof[s])
       /\ IF \A a \in DOMAIN md : md[a] = <<>> THEN f.nmd = 0
          ELSE f.nmd = 1 /\ \E a \in DOMAIN md : md[a] = f.md
\* calls: one record per hook that ran, in order: h, alive (the library and PETSc
\* still work), look (what the registry gave)
Fin(calls, petsc, f, ok, o) ==
  /\ up /\ live = {}
  /\ LET run == Reversed(hooks)
         late == IF timed THEN [cnt EXCEPT ![Inner(stack)][3] = @ + Len(hooks)] ELSE cnt
     IN /\ On("hook") => /\ ok /\ ~petsc
                         /\ [j \in DOMAIN calls |-> calls[j].h] = run
                         /\ \A j \in DOMAIN calls : calls[j].alive = 1
                         \* a hook finds what was there when it was registered
                         /\ \A j \in DOMAIN calls : regAt >= 0 /\ Len(hooks) + 1 - j > regAt => Same(names, calls[j].look)
        /\ On("stage") => Written(f, late)
  /\ up' = FALSE /\ names' = NoNames /\ bulk' = {} /\ hooks' = <<>> /\ regAt' = -1
  /\ live' = {} /\ cond' = [d \in DOMAIN cond |-> NoCond] /\ kind' = [d \in DOMAIN kind |-> NoKind]
  /\ timed' = FALSE /\ known' = Builtin /\ stack' = <<>> /\ cnt' = NoCnt /\ md' = [a \in DOMAIN md |-> <<>>]
  /\ Obs(o)

\* ---- named functions ---------------------------------------------------------
First == IF regAt < 0 THEN Len(hooks) ELSE regAt
Register(n, f, ok, o) ==
  /\ up /\ names' = [names EXCEPT ![n] = f] /\ regAt' = First
  /\ UNCHANGED <<up, bulk, hooks, dys, prof>>
  /\ On("reg") => ok
  /\ Obs(o)
RegisterMany(lo, hi, ok, o) ==
  /\ up /\ bulk' = bulk \cup (lo..(hi - 1)) /\ regAt' = IF hi > lo THEN First ELSE regAt
  /\ UNCHANGED <<up, names, hooks, dys, prof>>
  /\ On("reg") => ok
  /\ Obs(o)
Find(n) == IF n \in Name THEN names[n] ELSE 0
\* opt: the names given for conditions 3, 4, 5 on the command line (0: none, -1: a
\* name nobody uses)
New(i, disc, mode, cells, opt, ok, o) ==
  /\ up /\ i \notin live
  /\ LET good == \A j \in 1..3 : opt[j] = 0 \/ Find(opt[j]) > 0 IN
     /\ On("reg") => ok = good
     /\ IF good
        THEN /\ live' = live \cup {i}
             /\ cond' = [cond EXCEPT ![i] = [c \in Cond |-> IF c \in 3..5 /\ opt[c - 2] # 0 THEN Find(opt[c - 2]) ELSE 0]]
             /\ kind' = [kind EXCEPT ![i] = [disc |-> disc, mode |-> mode, cells |-> cells]]
        ELSE UNCHANGED dys
  /\ UNCHANGED <<up, hooks, reg, prof>>
  /\ Obs(o)
Select(i, c, n, ok, o) ==
  /\ i \in live
  /\ On("reg") => ok = (Find(n) > 0)
  /\ cond' = IF Find(n) > 0 THEN [cond EXCEPT ![i][c] = Find(n)] ELSE cond
  /\ UNCHANGED <<up, reg, hooks, live, kind, prof>>
  /\ Obs(o)
SetDirect(i, c, k, ok, o) ==
  /\ i \in live /\ cond' = [cond EXCEPT ![i][c] = k]
  /\ UNCHANGED <<up, reg, hooks, live, kind, prof>>
  /\ On("reg") => ok
  /\ Obs(o)
Del(i, ok, o) ==
  /\ i \in live /\ live' = live \ {i}
  /\ cond' = [cond EXCEPT ![i] = NoCond] /\ kind' = [kind EXCEPT ![i] = NoKind]
  /\ UNCHANGED <<up, reg, hooks, prof>>
  /\ On("reg") => ok
  /\ Obs(o)

\* ---- stages, timers, profile ---------------------------------------------------
Enable(ok, o) ==
  /\ up /\ timed' = TRUE
  /\ UNCHANGED <<up, reg, hooks, dys, known, stack, cnt, md>>
  /\ On("stage") => ok
  /\ Obs(o)
AddStage(s, ok, o) ==
  /\ up /\ known' = known \cup {s}
  /\ UNCHANGED <<up, reg, hooks, dys, timed, stack, cnt, md>>
  /\ On("stage") => ok
  /\ Obs(o)
Enterable(s) == s \in known /\ s # 1     \* the main stage is PETSc's
Enter(s, o) ==
  /\ up /\ stack' = IF Enterable(s) THEN Append(stack, s) ELSE stack
  /\ UNCHANGED <<up, reg, hooks, dys, timed, known, cnt, md>>
  /\ Obs(o)
\* leaving the innermost stage; leaving an unknown one has no effect
Exit(s, o) ==
  /\ up
  /\ Enterable(s) => stack # <<>> /\ Inner(stack) = s
  /\ stack' = IF Enterable(s) THEN SubSeq(stack, 1, Len(stack) - 1) ELSE stack
  /\ UNCHANGED <<up, reg, hooks, dys, timed, known, cnt, md>>
  /\ Obs(o)
Tick(t, times, o) ==
  /\ up /\ cnt' = IF timed THEN [cnt EXCEPT ![Inner(stack)][t] = @ + times] ELSE cnt
  /\ UNCHANGED <<up, reg, hooks, dys, timed, known, stack, md>>
  /\ Obs(o)
\* setting up a dycore stored at address a records its metadata
Setup(i, a, ok, o) ==
  /\ i \in live
  /\ md' = IF timed THEN [md EXCEPT ![a] = <<kind[i].mode + 1, kind[i].disc + 1, 1, kind[i].cells>>] ELSE md
  /\ UNCHANGED <<up, reg, hooks, dys, timed, known, stack, cnt>>
  /\ On("stage") => ok
  /\ Obs(o)
\* (PETSc's log viewer leaves every stage that is still open, so a profile is
\* written outside stages)
Write(f, ok, o) ==
  /\ up /\ stack = <<>> /\ UNCHANGED vars
  /\ On("stage") => ok /\ Written(f, cnt)
  /\ Obs(o)
=============================================================================
