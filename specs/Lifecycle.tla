------------------------------ MODULE Lifecycle ------------------------------
(* The life of several dycores: the order of the calls that bring one from
   creation to running, which pairs of mode and discretization exist, what the
   command line contributes, and what every call leaves behind when it is
   refused.

   Modes 0 Richards, 1 TH, 2 salinity (3: no such mode).
   Discretizations 0 MPFA-O, 1 MPFA-O DAE, 2 MPFA-O transient variable, 3 BDM,
   4 WY, 5 FV-TPF.  Integrators 0 SNES, 1 TS.                               *)
EXTENDS Integers, Sequences

CONSTANTS Rules        \* {"life"} or {}
On == "life" \in Rules
MPFAO == 0
DAE == 1
BDM == 3
WY == 4
TPF == 5
Modes == 0..3
Discs == 0..5
Supported(m, d) == (m = 0 /\ d \in Discs) \/ (m \in 1..2 /\ d = MPFAO)
\* which integrator the driver sets up for which pair
Driven(m, d, q) == CASE m = 0 /\ d = MPFAO -> TRUE
                     [] m = 0 /\ d \in 1..2 -> q = 1
                     [] m = 0 /\ d = TPF -> q = 0
                     [] m = 1 /\ d = MPFAO -> q = 1
                     [] m = 2 /\ d = MPFAO -> q = 0
                     [] OTHER -> FALSE

VARIABLES dy,   \* [id -> state of the dycore]
          cli   \* the command line: mode, disc (-1: not given), mesh (0, or the number of cells of a
           \* mesh file), out (whether the mesh is to be written, which only MPFA-O can)
vars == <<dy, cli>>

Dead == [live |-> FALSE, mode |-> 0, disc |-> 0, ms |-> FALSE, ds |-> FALSE, opts |-> FALSE, setup |-> FALSE,
         ctor |-> 0, grid |-> -1, n |-> 0, drv |-> "none", half |-> FALSE, out |-> FALSE, broken |-> FALSE]
Fresh == [Dead EXCEPT !.live = TRUE]
Init0(Dy) == dy = [i \in Dy |-> Dead] /\ cli = [mode |-> -1, disc |-> -1, mesh |-> 0, out |-> FALSE]

\* unknowns of a dycore on a row of n hexahedra (5n + 1 faces)
Unknowns(d) == CASE d.disc = BDM -> 4 * (5 * d.n + 1) + d.n
                 [] d.disc = DAE \/ d.mode > 0 -> 2 * d.n
                 [] OTHER -> d.n
\* ---- observations ----------------------------------------------------------
\* of every dycore after every call; the number of unknowns is -1 while it cannot be told
Seen(d) == [live |-> d.live, mode |-> d.mode, disc |-> d.disc,
            cells |-> IF d.live THEN d.grid ELSE 0,
            size |-> IF ~d.live THEN 0 ELSE IF d.setup THEN Unknowns(d) ELSE -1]
Obs(v) == On => v = [j \in DOMAIN v |-> Seen(dy'[j - 1])]

\* a refused call changes nothing
Refused(ok, v) == (On => ~ok) /\ UNCHANGED vars /\ Obs(v)
Done(i, d, ok, v) == (On => ok) /\ dy' = [dy EXCEPT ![i] = d] /\ UNCHANGED cli /\ Obs(v)

New(i, ok, v) == ~dy[i].live /\ Done(i, Fresh, ok, v)
Del(i, ok, v) == dy[i].live /\ Done(i, Dead, ok, v)
SetMode(i, m, ok, v) ==
  /\ dy[i].live
  /\ IF dy[i].opts \/ (dy[i].ds /\ ~Supported(m, dy[i].disc)) THEN Refused(ok, v)
     ELSE Done(i, [dy[i] EXCEPT !.mode = m, !.ms = TRUE], ok, v)
SetDisc(i, d, ok, v) ==
  /\ dy[i].live
  /\ IF dy[i].opts \/ ~dy[i].ms \/ ~Supported(dy[i].mode, d) THEN Refused(ok, v)
     ELSE Done(i, [dy[i] EXCEPT !.disc = d, !.ds = TRUE], ok, v)
\* a constructor of a row of n cells
SetCtor(i, n, ok, v) ==
  /\ dy[i].live
  /\ IF dy[i].opts \/ ~dy[i].ds THEN Refused(ok, v) ELSE Done(i, [dy[i] EXCEPT !.ctor = n], ok, v)
Cli(m, d, v) == cli' = [cli EXCEPT !.mode = m, !.disc = d] /\ UNCHANGED dy /\ Obs(v)
OutMesh(b, v) == cli' = [cli EXCEPT !.out = b] /\ UNCHANGED dy /\ Obs(v)
MeshFile(n, v) == cli' = [cli EXCEPT !.mesh = n] /\ UNCHANGED dy /\ Obs(v)

\* the pair the command line and the calls before give together
Pair(d) ==
  LET cm == cli.mode >= 0
      cd == cli.disc >= 0
  IN IF cm /\ (cd \/ d.ds) THEN [ok |-> TRUE, mode |-> cli.mode, disc |-> IF cd THEN cli.disc ELSE d.disc]
     ELSE IF cd THEN [ok |-> d.ms, mode |-> d.mode, disc |-> cli.disc]
     ELSE [ok |-> d.ds, mode |-> d.mode, disc |-> d.disc]
Chosen(d) == Pair(d).ok /\ Supported(Pair(d).mode, Pair(d).disc)
\* a mesh file can only be read by FV-TPF
Meshed(d) == cli.mesh > 0 => Pair(d).disc = TPF
\* left open: reading the options again, and whether a pair from the command line
\* stays when the mesh file is then refused
FromSpecified(d) == ~d.broken /\ ~(d.opts /\ ~d.setup) /\ (~d.opts /\ Chosen(d) /\ ~Meshed(d) => cli.mode < 0 /\ cli.disc < 0)
From(i, ok, v) ==
  LET d == dy[i]
      n == IF cli.mesh > 0 THEN cli.mesh ELSE IF d.ctor > 0 THEN d.ctor ELSE 2
  IN /\ d.live /\ FromSpecified(d)
     /\ IF d.setup THEN Refused(ok, v)
        ELSE IF ~(Chosen(d) /\ Meshed(d))
        THEN (On => ~ok) /\ dy' = [dy EXCEPT ![i].half = TRUE] /\ UNCHANGED cli /\ Obs(v)
        ELSE Done(i, [d EXCEPT !.mode = Pair(d).mode, !.disc = Pair(d).disc, !.ms = TRUE, !.ds = TRUE, !.opts = TRUE, !.out = cli.out,
                               !.n = n, !.grid = IF cli.mesh > 0 THEN -2 ELSE n], ok, v)
\* properties (k = 0, 1) and conditions (k = 2, 3)
SetQuantity(i, k, ok, v) ==
  /\ dy[i].live
  /\ IF ~dy[i].opts /\ dy[i].half /\ k > 1 THEN UNCHANGED vars /\ Obs(v)    \* left open
     ELSE IF dy[i].opts THEN Done(i, dy[i], ok, v) ELSE Refused(ok, v)
\* setting up a dycore that was asked for what it cannot do fails half way: it is not
\* set up (and trying again is left open)
Mute(d) == d.out /\ d.disc # MPFAO
Broken(i, ok, v) == (On => ~ok) /\ dy' = [dy EXCEPT ![i].broken = TRUE] /\ UNCHANGED cli /\ Obs(v)
\* (every quantity the pair needs is set just before)
Setup(i, ok, v) ==
  /\ dy[i].live /\ ~dy[i].setup /\ ~dy[i].broken
  /\ IF ~dy[i].opts THEN Refused(ok, v) ELSE IF Mute(dy[i]) THEN Broken(i, ok, v) ELSE Done(i, [dy[i] EXCEPT !.setup = TRUE], ok, v)
Driver(i, q, ok, v) ==
  LET d == dy[i] IN
  /\ d.live /\ ~d.setup /\ ~d.broken
  /\ IF ~d.opts \/ d.disc = WY THEN Refused(ok, v)
     ELSE IF Mute(d) THEN Broken(i, ok, v)
     ELSE IF Driven(d.mode, d.disc, q) THEN Done(i, [d EXCEPT !.setup = TRUE, !.drv = "ok"], ok, v)
     \* the dycore is set up, but cannot be run
     ELSE (On => ~ok) /\ dy' = [dy EXCEPT ![i].setup = TRUE, ![i].drv = "bad"] /\ UNCHANGED cli /\ Obs(v)
Run(i, ok, v) ==
  LET d == dy[i] IN
  /\ d.live
  /\ IF d.drv # "ok" THEN Refused(ok, v)
     ELSE IF d.disc = DAE \/ d.mode = 1 THEN UNCHANGED vars /\ Obs(v)       \* (whether the solver converges is left open)
     ELSE Done(i, d, ok, v)
TimeStep(i, ok, v) ==
  LET d == dy[i] IN
  d.live /\ IF d.drv = "none" THEN Refused(ok, v) ELSE IF d.drv = "bad" THEN UNCHANGED vars /\ Obs(v) ELSE Done(i, d, ok, v)
\* what can be asked of a dycore: diagnostics once set up, where there are any
Diagnosed(d) == d.setup /\ d.disc \notin {BDM, WY} /\ d.grid # -2
Can(d, k) == CASE k \in {0, 1, 3} -> Diagnosed(d)
               [] k = 2 -> d.setup
               [] k = 6 -> d.opts
Answer(d, k) == CASE k = 1 -> d.n
                  [] k = 2 -> Unknowns(d)
                  [] k = 6 -> 3
Ask(i, k, len, ok, v) ==
  LET d == dy[i] IN
  /\ d.live
  /\ IF k \in {4, 5} /\ d.opts /\ ~d.setup THEN UNCHANGED vars /\ Obs(v)  \* left open
     ELSE IF k \in {4, 5} THEN IF d.setup THEN Done(i, d, ok, v) ELSE Refused(ok, v)
     ELSE IF ~Can(d, k) THEN Refused(ok, v)
     ELSE (On /\ k \in {1, 2, 6} /\ ~(k = 6 /\ d.grid = -2) => len = Answer(d, k)) /\ Done(i, d, ok, v)
=============================================================================
