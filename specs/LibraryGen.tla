----------------------------- MODULE LibraryGen ------------------------------
(* Closed model of Library for checking and for generating behaviours. *)
EXTENDS Library, TLC, Json
CONSTANTS Acts,      \* kinds of action that may be taken
          Dy, Pairs, \* dycores; <<disc, mode>> pairs
          GNames, GFuncs, GConds, GStages, GHookIds, Cells, Ranges, Runs, OptNames, MaxOpt,
          MaxOps, MaxSessions, Styles
VARIABLES hist, n, ses, ran, fin
gvars == <<vars, hist, n, ses, ran, fin>>

ViewOf(u, nm, b, cn, lv, st, ct) ==
  LET L == [j \in 1..Cardinality(lv) |-> CHOOSE x \in lv : Cardinality({y \in lv : y < x}) = j - 1]
  IN [up |-> u, look |-> nm, bulk |-> Cardinality(b), cur |-> Inner(st), cnt |-> ct, dup |-> 0, left |-> 0,
      cond |-> [j \in DOMAIN L |-> [i |-> L[j], v |-> cn[L[j]]]]]
View == ViewOf(up, names, bulk, cond, live, stack, cnt)

Can(a) == a \in Acts /\ n < MaxOps /\ ~fin /\ n' = n + 1 /\ UNCHANGED <<ses, ran, fin>>
\* (a state-level set: keeps TLC's simulator from weighting actions by their parameters)
Varies(Z) == IF n >= 0 THEN Z ELSE {}
Rec(e) == hist' = Append(hist, e)
GInit == /\ Down(Dy, 1..Cardinality(Dy)) /\ hist = <<>> /\ n = 0 /\ ses = 0 /\ ran = <<>> /\ fin = FALSE
GStart == \E w \in Varies({0, 1}), t \in Varies({0, 1}) :
  /\ ~fin /\ n < MaxOps /\ ses < MaxSessions /\ (w = 1 => t = 0) /\ (up => "again" \in Acts /\ t = 0)
  /\ Init_(t, TRUE, View') /\ Rec([e |-> "init", a |-> w, b |-> t])
  /\ n' = n + 1 /\ ses' = (IF up THEN ses ELSE ses + 1) /\ UNCHANGED <<ran, fin>>
GHook == \E h \in Varies(GHookIds) : Can("hook") /\ Hook(h, TRUE, View') /\ Rec([e |-> "hook", a |-> h])
\* a run of hooks, registered one after the other
GHooks == \E k \in Varies(Runs), h \in Varies(GHookIds) :
  /\ Can("hooks") /\ up
  /\ hooks' = hooks \o [j \in 1..k |-> 10 + (((h - 10) + j) % 40)]
  /\ UNCHANGED <<up, reg, dys, prof>> /\ Rec([e |-> "hooks", a |-> h, k |-> k])
GReg == \E m \in Varies(GNames), f \in Varies(GFuncs), s \in Varies(Styles) :
  Can("reg") /\ Register(m, f, TRUE, View') /\ Rec([e |-> "reg", a |-> m, b |-> f, c |-> s])
GMany == \E r \in Varies(Ranges) : Can("many") /\ RegisterMany(r[1], r[2], TRUE, View') /\ Rec([e |-> "many", a |-> r[1], b |-> r[2]])
GNew == \E i \in Varies(Dy), p \in Varies(Pairs), c \in Varies(Cells), o \in Varies([1..3 -> OptNames]) :
  /\ Can("new") /\ up /\ i = Cardinality(live) /\ i \notin live /\ Cardinality({j \in 1..3 : o[j] # 0}) <= MaxOpt
  /\ New(i, p[1], p[2], c, o, \A j \in 1..3 : o[j] = 0 \/ Find(o[j]) > 0, View')
  /\ Rec([e |-> "new", i |-> i, cells |-> c, disc |-> p[1], mode |-> p[2], o |-> o])
GSel == \E i \in live, c \in GConds, m \in GNames \cup {-1}, s \in Varies(Styles) :
  Can("sel") /\ Select(i, c, m, Find(m) > 0, View') /\ Rec([e |-> "sel", i |-> i, c |-> c, n |-> m, s |-> s])
GSetF == \E i \in live, c \in GConds, k \in {1, 105} :
  Can("setf") /\ (k > 100 => c > 2) /\ SetDirect(i, c, k, TRUE, View') /\ Rec([e |-> "setf", i |-> i, c |-> c, k |-> k])
GDel == \E i \in live : Can("del") /\ i = Cardinality(live) - 1 /\ Del(i, TRUE, View') /\ Rec([e |-> "del", i |-> i])
GEnable == Can("enable") /\ Enable(TRUE, View') /\ Rec([e |-> "enable"])
GStage == \E s \in Varies(GStages), y \in Varies(Styles) : Can("stage") /\ AddStage(s, TRUE, View') /\ Rec([e |-> "stage", a |-> s, b |-> y])
GEnter == \E s \in Varies(GStages), y \in Varies(Styles) : Can("stage") /\ Len(stack) < 6 /\ Enter(s, View') /\ Rec([e |-> "enter", a |-> s, b |-> y])
GExit == \E s \in Varies(GStages) : Can("stage") /\ Exit(s, View') /\ Rec([e |-> "exit", a |-> s, b |-> 0])
GTick == \E t \in Varies(1..2), k \in Varies({1, 3}), y \in Varies(Styles) : Can("tick") /\ Tick(t, k, View') /\ Rec([e |-> "tick", a |-> t, b |-> k, c |-> y])
\* every dycore is set up at most once; here a dycore's address is its number
GSetup == \E i \in live :
  /\ Can("setup") /\ \A j \in DOMAIN hist : ~(hist[j].e = "setup" /\ hist[j].i = i /\ \A k \in j..Len(hist) : hist[k].e # "new" \/ hist[k].i # i)
  /\ Setup(i, i + 1, TRUE, View') /\ Rec([e |-> "setup", i |-> i])
Prof(c) == [file |-> timed, prof |-> c, nmd |-> IF \A a \in DOMAIN md : md[a] = <<>> THEN 0 ELSE 1,
            md |-> IF \A a \in DOMAIN md : md[a] = <<>> THEN <<>> ELSE CHOOSE x \in {md[a] : a \in DOMAIN md} : x # <<>>]
GWrite == Can("write") /\ Write(Prof(cnt), TRUE, View') /\ Rec([e |-> "write", a |-> 1])
Calls == [j \in DOMAIN hooks |-> [h |-> Reversed(hooks)[j], alive |-> 1, look |-> names]]
DoFin == /\ Fin(Calls, FALSE, Prof(IF timed THEN [cnt EXCEPT ![Inner(stack)][3] = @ + Len(hooks)] ELSE cnt), TRUE, View')
         /\ ran' = Append(ran, [j \in DOMAIN hooks |-> Calls[j].h]) /\ Rec([e |-> "fin"])
GFin == "fin" \in Acts /\ n < MaxOps /\ ~fin /\ DoFin /\ n' = n + 1 /\ UNCHANGED <<ses, fin>>
\* closing: every behaviour ends with the library finalized
GEnd == /\ n >= MaxOps /\ ~fin
        /\ IF live # {} THEN Del(Cardinality(live) - 1, TRUE, View') /\ Rec([e |-> "del", i |-> Cardinality(live) - 1]) /\ UNCHANGED <<ran, fin>>
           ELSE IF up THEN DoFin /\ UNCHANGED fin
           ELSE fin' = TRUE /\ UNCHANGED <<vars, hist, ran>>
        /\ UNCHANGED <<n, ses>>
GNext == GStart \/ GHook \/ GHooks \/ GReg \/ GMany \/ GNew \/ GSel \/ GSel \/ GSetF \/ GDel \/ GEnable \/ GStage \/ GEnter \/ GExit \/ GTick
         \/ GSetup \/ GWrite \/ GFin \/ GEnd
GSpec == GInit /\ [][GNext]_gvars

\* ---- what the specification promises, over the history of calls --------------
Starts == {j \in DOMAIN hist : hist[j].e = "init" /\ (j = 1 \/ hist[j - 1].e = "fin" \/ \A k \in 1..(j - 1) : hist[k].e # "init")}
Begin0 == IF Starts = {} THEN 0 ELSE CHOOSE j \in Starts : \A k \in Starts : k <= j
Session == IF up THEN Begin0..Len(hist) ELSE {}
\* the registry holds, for every name, the function of the last registration in this session
LastReg == \A m \in Name :
  LET R == {j \in Session : hist[j].e = "reg" /\ hist[j].a = m}
  IN names[m] = IF R = {} THEN 0 ELSE hist[CHOOSE j \in R : \A k \in R : k <= j].b
\* every hook registered in a finished session ran once, the last one first
HookSeq(a, b) == LET Q == SelectSeq(SubSeq(hist, a, b), LAMBDA e : e.e = "hook") IN [j \in DOMAIN Q |-> Q[Len(Q) + 1 - j].a]
Fins == {j \in DOMAIN hist : hist[j].e = "fin"}
RanOk == Cardinality(Fins) = Len(ran) /\
         (Cardinality(Fins) > 0 =>
           LET z == CHOOSE j \in Fins : \A k \in Fins : k <= j
               P == {j \in Fins : j < z}
               y == IF P = {} THEN 0 ELSE CHOOSE j \in P : \A k \in P : k <= j
           IN "hooks" \in Acts \/ ran[Len(ran)] = HookSeq(y + 1, z))
Nothing == ~up => names = NoNames /\ bulk = {} /\ hooks = <<>> /\ stack = <<>> /\ known = Builtin /\ live = {} /\ ~timed /\ cnt = NoCnt
\* with timing on from the start, every tick of the session is recorded in some stage
RECURSIVE Sum(_)
Sum(Z) == IF Z = {} THEN 0 ELSE LET z == CHOOSE z \in Z : TRUE IN hist[z].b + Sum(Z \ {z})
RECURSIVE Tot(_, _)
Tot(t, Z) == IF Z = {} THEN 0 ELSE LET z == CHOOSE z \in Z : TRUE IN cnt[z][t] + Tot(t, Z \ {z})
Ticked == (up /\ hist[Begin0].b = 1) => \A t \in 1..2 : Tot(t, Stage) = Sum({j \in Session : hist[j].e = "tick" /\ hist[j].a = t})
NotTimed == (up /\ ~timed) => cnt = NoCnt
\* a condition is only changed by its own selection or setting
CondIsolated == [][live' = live => Cardinality({<<i, c>> \in live \X Cond : cond'[i][c] # cond[i][c]}) <= 1]_gvars
Emit == fin => PrintT("SCEN " \o ToJson(hist))
=============================================================================
