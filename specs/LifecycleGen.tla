---------------------------- MODULE LifecycleGen -----------------------------
(* Closed model of Lifecycle for checking and for generating behaviours. *)
EXTENDS Lifecycle, TLC, Json
CONSTANTS Acts, Dy, GModes, GDiscs, GCtor, GMesh, Meths, Asks, Sets, MaxOps
VARIABLES hist, n
gvars == <<vars, hist, n>>
V == [j \in DOMAIN dy |-> Seen(dy[j])]
View == [j \in 1..(1 + CHOOSE m \in Dy : \A k \in Dy : k <= m) |-> V[j - 1]]
Varies(Z) == IF n >= 0 THEN Z ELSE {}
A(a) == a \in Acts /\ n < MaxOps /\ n' = n + 1
Rec(e) == hist' = Append(hist, e)
Live == {i \in Dy : dy[i].live}
GInit == Init0(Dy) /\ hist = <<>> /\ n = 0
\* dycores come in order
GNew == \E i \in Dy \ Live : A("new") /\ (\A k \in Dy : k < i => k \in Live) /\ New(i, TRUE, View') /\ Rec([e |-> "new", a |-> i])
GMode == \E i \in Live, m \in Varies(GModes) : A("mode") /\ (m = 3 => dy[i].ds \/ dy[i].opts) /\ SetMode(i, m, ~(dy[i].opts \/ (dy[i].ds /\ ~Supported(m, dy[i].disc))), View') /\ Rec([e |-> "mode", a |-> i, b |-> m])
GDisc == \E i \in Live, d \in Varies(GDiscs) : A("disc") /\ SetDisc(i, d, ~(dy[i].opts \/ ~dy[i].ms \/ ~Supported(dy[i].mode, d)), View') /\ Rec([e |-> "disc", a |-> i, b |-> d])
GCtor_ == \E i \in Live, c \in Varies(GCtor) : A("ctor") /\ SetCtor(i, c, dy[i].ds /\ ~dy[i].opts, View') /\ Rec([e |-> "ctor", a |-> i, b |-> c])
GCli == \E m \in Varies({-1} \cup GModes), d \in Varies({-1} \cup GDiscs) : A("cli") /\ m # 3 /\ Cli(m, d, View') /\ Rec([e |-> "cli", a |-> 0, b |-> m, c |-> d])
GMesh_ == \E c \in Varies(GMesh) : A("mesh") /\ MeshFile(c, View') /\ Rec([e |-> "mesh", a |-> 0, b |-> c])
GOut == \E b \in Varies({0, 1}) : A("out") /\ OutMesh(b = 1, View') /\ Rec([e |-> "out", a |-> 0, b |-> b])
GFrom == \E i \in Live : A("from") /\ From(i, ~dy[i].setup /\ Chosen(dy[i]) /\ Meshed(dy[i]), View') /\ Rec([e |-> "from", a |-> i])
GSet == \E i \in Live, k \in Varies(Sets) : A("set") /\ SetQuantity(i, k, dy[i].opts, View') /\ Rec([e |-> "set", a |-> i, b |-> k])
GSetup == \E i \in Live : A("setup") /\ Setup(i, dy[i].opts /\ ~Mute(dy[i]), View') /\ Rec([e |-> "setup", a |-> i, b |-> IF dy[i].opts THEN 1 ELSE 0])
GDriver == \E i \in Live, q \in Varies(Meths) :
  A("init") /\ Driver(i, q, dy[i].opts /\ ~Mute(dy[i]) /\ Driven(dy[i].mode, dy[i].disc, q), View') /\ Rec([e |-> "init", a |-> i, b |-> IF dy[i].opts THEN 1 ELSE 0, c |-> q])
GRun == \E i \in Live : A("run") /\ Run(i, dy[i].drv = "ok", View') /\ Rec([e |-> "run", a |-> i])
GStep == \E i \in Live : A("step") /\ TimeStep(i, dy[i].drv = "ok", View') /\ Rec([e |-> "step", a |-> i])
GAsk == \E i \in Live, k \in Varies(Asks) :
  LET good == IF k \in {4, 5} THEN dy[i].setup ELSE Can(dy[i], k) IN
  A("ask") /\ Ask(i, k, IF k \in {1, 2, 6} THEN Answer(dy[i], k) ELSE 0, good, View') /\ Rec([e |-> "ask", a |-> i, b |-> k])
GDel == \E i \in Live : A("del") /\ Del(i, TRUE, View') /\ Rec([e |-> "del", a |-> i])
GNext == GNew \/ GMode \/ GDisc \/ GCtor_ \/ GCli \/ GMesh_ \/ GOut \/ GFrom \/ GSet \/ GSetup \/ GDriver \/ GRun \/ GStep \/ GAsk \/ GDel
GSpec == GInit /\ [][GNext]_gvars

\* ---- what the specification promises -----------------------------------------
\* a dycore gets past its options only with a supported pair, and never backwards
Sound == \A i \in Live : dy[i].opts => Supported(dy[i].mode, dy[i].disc) /\ dy[i].ms /\ dy[i].ds
Ordered == \A i \in Live : (dy[i].drv = "ok" => dy[i].setup) /\ (dy[i].setup => dy[i].opts) /\ (dy[i].ds => dy[i].ms)
Closed == [][\A i \in Live : dy'[i].live =>
               /\ dy[i].opts => dy'[i].mode = dy[i].mode /\ dy'[i].disc = dy[i].disc /\ dy'[i].n = dy[i].n
               /\ (dy[i].ms => dy'[i].ms) /\ (dy[i].ds => dy'[i].ds) /\ (dy[i].opts => dy'[i].opts) /\ (dy[i].setup => dy'[i].setup)]_gvars
Apart == [][\E i \in Dy : \A k \in Dy \ {i} : dy'[k] = dy[k]]_gvars
\* a correct remainder of the sequence is always possible
CanFinish == \A i \in Live : dy[i].setup \/ dy[i].opts \/ (\E m \in 0..2, d \in Discs : Supported(m, d) /\ (dy[i].ds => Supported(m, dy[i].disc)))
Emit == n = MaxOps => PrintT("SCEN " \o ToJson(hist))
=============================================================================
