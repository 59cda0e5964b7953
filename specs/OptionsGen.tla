------------------------------ MODULE OptionsGen ------------------------------
(* Closed model of Options for checking and for generating behaviours. *)
EXTENDS Options, FiniteSets, Json, TLC
CONSTANTS Acts, GOpts, GVals, GModes, GDiscs, MaxPut, MaxApi, Sim
VARIABLES hist, na, last
gvars == <<vars, hist, na, last>>
Pick(Z) == IF Sim /\ na >= 0 /\ Z # {} THEN {RandomElement(Z)} ELSE Z
A(a) == a \in Acts
Rec(e) == hist' = Append(hist, e)
ApiVals(p) == CASE p = "mode" -> GModes [] p = "disc" -> GDiscs
                [] p = "density" -> {"EXPONENTIAL", "CONSTANT"} [] p = "viscosity" -> {"BATZLE_AND_WANG", "CONSTANT"}
                [] p = "gmatrix" -> {"MPFAO_GMATRIX_TPF", "MPFAO_GMATRIX_DEFAULT"} [] p = "mpfao_bc" -> {"NEUMANN_BC", "SEEPAGE_BC"} [] p = "quadrature" -> {"LUMPED", "FULL"}
                [] p = "dt_init" -> {"3"} [] p \in Conds -> {"1.5"} [] OTHER -> {"0.375"}
ApiNames == Quantities \cup Conds \cup {"density", "viscosity", "gmatrix", "mpfao_bc", "quadrature", "dt_init"}
GInit == Init0 /\ hist = <<>> /\ na = 0 /\ last = 0
\* options come in the order of the table
GPut == \E k \in Pick(DOMAIN Table) : \E v \in Pick(1..3) :
  /\ A("put") /\ Cardinality(DOMAIN cmd) < MaxPut /\ k > last /\ Table[k].o \in GOpts /\ (IF 0 \in GVals THEN v = 1 + Cardinality(DOMAIN cmd) ELSE v \in GVals)   \* 0: other values for later options
  /\ v = 3 => Table[k].bad # ""
  /\ LET x == IF v = 3 THEN Table[k].bad ELSE Table[k].v[v] IN Put(Table[k].o, x) /\ Rec([e |-> "put", o |-> Table[k].o, v |-> x])
  /\ last' = (IF Sim THEN 0 ELSE k) /\ UNCHANGED na
Sure == UNCHANGED <<na, last>>
GNew == A("new") /\ New(~BadAt("new"), Want') /\ Rec([e |-> "new"]) /\ Sure
GMode == \E m \in GModes : A("new") /\ st = "new" /\ Mode = "" /\ SetP("mode", m, TRUE, Want') /\ Rec([e |-> "set", p |-> "mode", v |-> m]) /\ Sure
GDisc == \E d \in GDiscs : A("new") /\ st = "new" /\ Disc = "" /\ Mode # "" /\ SetP("disc", d, Supported(Mode, d), Want') /\ Supported(Mode, d) /\ Rec([e |-> "set", p |-> "disc", v |-> d]) /\ Sure
GApi == \E p \in Pick(ApiNames) : \E v \in Pick(ApiVals(p)) :
  A("api") /\ na < MaxApi /\ Settable(p) /\ SetP(p, v, TRUE, Want') /\ na' = na + 1 /\ UNCHANGED last /\ Rec([e |-> "set", p |-> p, v |-> v])
\* (nothing is left to chance unless the point is to choose by options)
Chosen == (Mode # "" /\ Disc # "") \/ (GivenP("mode") /\ (GivenP("disc") \/ Disc # "")) \/ (GivenP("disc") /\ Mode # "")
GFrom == A("from") /\ (Chosen \/ Sim) /\ From(~Refused, Want') /\ Rec([e |-> "from"]) /\ Sure
GSetup == A("setup") /\ Setup(~(NoMesh \/ NoRegression), Want') /\ Rec([e |-> "setup"]) /\ Sure
GDrive == A("drive") /\ Drive(~(NoMesh \/ NoRegression \/ BadAt("drive") \/ ~Driven(Mode, Disc, Val("method"))), Want') /\ Rec([e |-> "drive"]) /\ Sure
\* whatever a pair needs, set in one go
GReady == /\ A("setup") /\ st = "opts" /\ ~Ready /\ api' = [q \in DOMAIN api |-> IF q \in Quantities /\ api[q] = None THEN "0.375" ELSE api[q]]
          /\ UNCHANGED <<cmd, par, st>> /\ Rec([e |-> "ready"]) /\ Sure
GNext == GPut \/ GNew \/ GMode \/ GDisc \/ GApi \/ GFrom \/ GReady \/ GSetup \/ GDrive
GSpec == GInit /\ [][GNext]_gvars

\* ---- what the specification promises -----------------------------------------
TypeOK == \A p \in Params : par[p] \in {RowOf(p).d} \cup {RowOf(p).v[k] : k \in 1..2} \cup ApiVals(p) \cup {"3"}
\* a parameter nobody names keeps its default, one that only its option names has that value once read
Untouched == \A p \in Params : (~GivenP(p) /\ ~(\E k \in DOMAIN hist : hist[k].e = "set" /\ hist[k].p = p)) => par[p] = RowOf(p).d
Order == <<"new", "opts", "set", "run">>
Pos(s) == IF s = "none" THEN 0 ELSE IF s = "failed" THEN 9 ELSE CHOOSE k \in DOMAIN Order : Order[k] = s
Heard == \A p \in Params : LET w == RowOf(p).at IN
  /\ GivenP(p) /\ ~Bad(Of(p)) /\ (\A k \in DOMAIN hist : hist[k].e = "set" => hist[k].p # p)
  /\ st # "failed" /\ p \notin CondParams /\ p # "reg_cells"
  /\ (CASE w = "new" -> Pos(st) >= 1 [] w = "opts" -> Pos(st) >= 2 [] w \in {"mpfao", "fvtpf", "fe"} -> Pos(st) >= 2 /\ Fam(Disc) = w
       [] w = "set" -> Pos(st) >= 3 /\ par["regression"] = "1" [] OTHER -> st = "run")
  => par[p] = cmd[Of(p)]
\* calls after the options win
CallsWin == [][\A q \in Quantities : api[q] # None => api'[q] # None]_gvars
\* a step changes only what it is about
Local == [][\A p \in Params : par'[p] # par[p] =>
              \/ st' # st /\ (GivenP(p) \/ p = "reg_cells")
              \/ Len(hist') > Len(hist) /\ hist'[Len(hist')].e = "set" /\ hist'[Len(hist')].p = p]_gvars
Done == st \in {"failed", "run", "set"}
\* rejected command lines are rejected for a reason that is on the command line
Reasoned == st = "failed" => DOMAIN cmd # {} \/ Mode = "" \/ Disc = "" \/ ~Driven(Mode, Disc, "SNES")
Emit == Done /\ (na = MaxApi \/ st # "run" \/ ~("api" \in Acts) \/ Sim) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
