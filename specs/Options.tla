------------------------------- MODULE Options --------------------------------
(* What every parameter of a dycore is, given the options on the command line and
   the calls that set parameters, from its creation to the start of a run.
   Values are the strings that name them.                                   *)
EXTENDS Integers, Sequences, TLC, OptionsTable

CONSTANTS Rules        \* {"options"} or {}
On == "options" \in Rules
Names == {Table[k].o : k \in DOMAIN Table}
Opts == [o \in Names |-> Table[CHOOSE k \in DOMAIN Table : Table[k].o = o]]
OptOf(o) == Opts[o]
Params == {Table[k].p : k \in DOMAIN Table}
Rows == [p \in Params |-> Table[CHOOSE k \in DOMAIN Table : Table[k].p = p]]
RowOf(p) == Rows[p]
\* quantities that calls set: a call wins over the option, whenever the option is read
Quantities == {"porosity", "permeability", "residual", "conductivity", "soil_density", "soil_heat"}
Conds == {"pressure", "velocity", "temperature"}
None == "none"

VARIABLES cmd,   \* [options given -> value]
          par,   \* [parameter -> value]
          api,   \* [quantity or condition -> value set by a call, or None]
          st     \* none, new, opts, set, run, failed
vars == <<cmd, par, api, st>>
Init0 ==
  /\ cmd = [o \in {} |-> ""] /\ par = [p \in Params |-> RowOf(p).d]
  /\ api = [x \in Quantities \cup Conds |-> None] /\ st = "none"

Given(o) == o \in DOMAIN cmd
Of(p) == RowOf(p).o
GivenP(p) == Given(Of(p))
Val(p) == IF GivenP(p) THEN cmd[Of(p)] ELSE par[p]
\* the parameters read at a stage, and whether a value among them is none
Stages == {Table[k].at : k \in DOMAIN Table}
Reads == [w \in Stages |-> {p \in Params : RowOf(p).at = w}]
Read(when) == Reads[when]
Bad(o) == Given(o) /\ cmd[o] = OptOf(o).bad /\ OptOf(o).bad # ""
BadAt(when) == \E p \in Read(when) : Bad(Of(p))
Take(when) == [p \in Params |-> IF p \in Read(when) THEN Val(p) ELSE par[p]]

Mode == par["mode"]
Disc == par["disc"]
Fam(d) == CASE d \in {"MPFA_O", "MPFA_O_DAE", "MPFA_O_TRANSIENTVAR"} -> "mpfao" [] d = "FV_TPF" -> "fvtpf" [] d \in {"BDM", "WY"} -> "fe" [] OTHER -> None
Supported(m, d) == m = "RICHARDS" \/ d = "MPFA_O"
Driven(m, d, q) == CASE m = "RICHARDS" /\ d = "MPFA_O" -> TRUE
                     [] m = "RICHARDS" /\ d \in {"MPFA_O_DAE", "MPFA_O_TRANSIENTVAR"} -> q = "TS"
                     [] m = "RICHARDS" /\ d = "FV_TPF" -> q = "SNES"
                     [] m = "TH" /\ d = "MPFA_O" -> q = "TS"
                     [] m = "SALINITY" /\ d = "MPFA_O" -> q = "SNES"
                     [] OTHER -> FALSE
FnVal(f) == IF f = "fa" THEN "111" ELSE "222"
\* boundary condition c after the options are read: a function by name, else a constant
FromOptions(c) == IF GivenP(c \o "_func") THEN FnVal(cmd[Of(c \o "_func")]) ELSE IF GivenP(c \o "_value") THEN cmd[Of(c \o "_value")] ELSE None
BadCond(c) == Bad(Of(c \o "_func")) \/ (~GivenP(c \o "_func") /\ Bad(Of(c \o "_value")))
CondParams == {c \o x : c \in Conds, x \in {"_func", "_value"}}
BadOpts == (\E p \in Read("opts") \ CondParams : Bad(Of(p))) \/ (\E c \in Conds : BadCond(c))
\* the pair that would be chosen
NewMode == Val("mode")
NewDisc == Val("disc")
Conflict ==
  \/ NewMode = "" \/ NewDisc = "" \/ ~Supported(NewMode, NewDisc)
  \/ GivenP("init_file") /\ Val("random") = "1"
  \/ GivenP("pmesh") /\ NewDisc # "FV_TPF"
Refused == BadOpts \/ Conflict \/ (Fam(NewDisc) # None /\ BadAt(Fam(NewDisc)))

Num(s) == CHOOSE k \in 0..9 : ToString(k) = s
\* ---- observations ----------------------------------------------------------------
Cells(par_) == IF par_["pmesh"] # "" THEN IF par_["pmesh"] = "row3.h5" THEN 3 ELSE 5
               ELSE IF par_["mesh"] # "" THEN IF par_["mesh"] = "three.msh" THEN 3 ELSE 5 ELSE 4
Q(p) == IF api[p] # None THEN api[p] ELSE par[p]
Shown(p) ==   \* which parameters can be seen when
  LET w == RowOf(p).at
  IN IF p \in CondParams \cup {"mesh", "pmesh", "enthalpy", "gardner_n"} THEN FALSE
     ELSE CASE w = "new" -> st # "none"
            [] w = "opts" -> st # "none" /\ (p \in {"mode", "disc"} => par[p] # "")
            [] w \in {"mpfao", "fvtpf", "fe"} -> st \in {"opts", "set", "run"} /\ w = Fam(par["disc"]) /\ (par["disc"] = "WY" => GivenP("quadrature"))
            [] w = "set" -> st \in {"set", "run"} /\ par["regression"] = "1"
            [] w = "drive" -> st = "run"
Effects ==
  LET later == st \in {"opts", "set", "run"}
      up == st \in {"set", "run"}
      fv == Fam(par["disc"]) \in {"mpfao", "fvtpf"}
      curves == up /\ (fv \/ par["disc"] = "WY")
      th == par["mode"] = "TH"
      X(n, c, v) == IF c THEN {<<n, v>>} ELSE {}
  IN UNION {
    UNION {X("bc_" \o c, later, api[c]) : c \in Conds},
    UNION {X("e_" \o q, up /\ (q \in {"conductivity", "soil_density", "soil_heat"} => th) /\ (st # "run" => api[q] # None), Q(q)) : q \in Quantities},
    X("e_gravity", later /\ fv, par["gravity"]), X("e_density", up, par["density"]), X("e_viscosity", up, par["viscosity"]),
    X("e_se", curves, SeTable[par["vg_m"]][par["vg_alpha"]]), X("e_kr", curves, KrTable[par["vg_m"]]),
    X("e_start", st = "run", IF par["random"] = "1" THEN "random" ELSE IF par["init_file"] # "" /\ par["mode"] = "RICHARDS" THEN par["init_file"] ELSE "uniform"),
    X("e_cells", later, ToString(Cells(par)))}
Want ==
  LET w == Effects
      c == {x \in Params : Shown(x)}
  IN [n \in c \cup {x[1] : x \in w} |-> IF n \in c THEN par[n] ELSE (CHOOSE x \in w : x[1] = n)[2]]
Obs(seen) == On => seen = Want'

Keep == UNCHANGED <<cmd, api>>
Fails(ok) == (On => ~ok) /\ st' = "failed" /\ UNCHANGED <<cmd, api, par>>
\* ---- actions ---------------------------------------------------------------------
Put(o, v) == st = "none" /\ cmd' = [x \in DOMAIN cmd \cup {o} |-> IF x = o THEN v ELSE cmd[x]] /\ UNCHANGED <<par, api, st>>
New(ok, seen) ==
  /\ st = "none"
  /\ IF BadAt("new") THEN Fails(ok) ELSE (On => ok) /\ st' = "new" /\ par' = Take("new") /\ Keep /\ Obs(seen)
\* calls: a parameter that options set too, or a quantity
Settable(p) ==
  CASE p = "mode" -> st = "new"
    [] p = "disc" -> st = "new" /\ par["mode"] # ""
    [] p \in {"density", "viscosity"} -> st \in {"new", "opts"}
    [] p \in {"gmatrix", "mpfao_bc"} -> st = "opts" /\ Fam(Disc) = "mpfao"
    [] p = "quadrature" -> st = "opts" /\ Disc = "BDM"
    [] p = "dt_init" -> st = "run"
    [] p \in Quantities \cup Conds -> st = "opts"
    [] OTHER -> FALSE
SetP(p, v, ok, seen) ==
  /\ Settable(p)
  /\ IF (p = "disc" /\ ~Supported(Mode, v)) \/ (p = "mode" /\ Disc # "" /\ ~Supported(v, Disc))
     THEN (On => ~ok) /\ UNCHANGED vars /\ Obs(seen)
     ELSE /\ (On => ok) /\ UNCHANGED <<cmd, st>>
          /\ IF p \in Quantities \cup Conds THEN api' = [api EXCEPT ![p] = v] /\ UNCHANGED par ELSE par' = [par EXCEPT ![p] = v] /\ UNCHANGED api
          /\ Obs(seen)
From(ok, seen) ==
  /\ st = "new"
  /\ IF Refused THEN Fails(ok)
     ELSE /\ (On => ok) /\ st' = "opts" /\ UNCHANGED cmd
          /\ par' = [p \in Params |-> IF p \in (Read("opts") \ {c \o "_value" : c \in {x \in Conds : GivenP(x \o "_func")}}) \cup Read(Fam(NewDisc)) THEN Val(p) ELSE par[p]]
          /\ api' = [x \in DOMAIN api |-> IF x \in Conds THEN FromOptions(x) ELSE api[x]]
          /\ Obs(seen)
NoRegression == par["regression"] = "1" /\ ~GivenP("reg_file")
NoMesh == par["output_mesh"] = "1" /\ Disc # "MPFA_O"
\* left open: what the driver does with files of properties and initial conditions (see IO),
\* and regression files of the discretizations without cells of their own
Specified == \A p \in {"io_kfile", "io_pfile", "io_icfile"} : par[p] = ""
RegKnown == par["regression"] = "1" => Fam(Disc) = "mpfao" /\ ~BadAt("set")
\* every quantity the pair needs and no call has set is set to the value given here
Ready == \A q \in Quantities : api[q] # None \/ (q \in {"conductivity", "soil_density", "soil_heat"} /\ Mode # "TH")
RegCells == LET n == Num(Val("reg_cells")) IN ToString(IF n > Cells(par) THEN Cells(par) ELSE n)
Upped == [p \in Params |-> IF p \in Read("set") /\ par["regression"] = "1" THEN IF p = "reg_cells" THEN RegCells ELSE Val(p) ELSE par[p]]
Setup(ok, seen) ==
  /\ st = "opts" /\ Ready /\ RegKnown
  /\ IF NoMesh \/ NoRegression THEN Fails(ok) ELSE (On => ok) /\ st' = "set" /\ par' = Upped /\ Keep /\ Obs(seen)
Drive(ok, seen) ==
  /\ st = "opts" /\ Specified /\ RegKnown
  /\ IF NoMesh \/ NoRegression \/ BadAt("drive") \/ ~Driven(Mode, Disc, Val("method")) THEN Fails(ok)
     ELSE /\ (On => ok) /\ st' = "run" /\ Keep
          /\ par' = [p \in Params |-> IF p \in Read("drive") THEN Val(p) ELSE Upped[p]]
          /\ Obs(seen)
=============================================================================
