------------------------------ MODULE FilesTrace ------------------------------
EXTENDS Files, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Range(s) == {s[j] : j \in DOMAIN s}
\* the file named n with dataset ds: the user's, or the checkpoint of that name
Holds(n, ds, t) == IF \E f \in usr : f.n = n /\ f.ds = ds THEN (CHOOSE f \in usr : f.n = n /\ f.ds = ds).x
                   ELSE (CHOOSE c \in chk : c.t = t).x
User(n, ds) == IF n = "" THEN <<>> ELSE Holds(n, ds, 0)
TInit == l = 1 /\ Init
TOpen == /\ Is("open")
         /\ (Rules # {} => Ev.ok)
         /\ Open(Ev.nc, Ev.nd, Ev.ids, Ev.lids, Ev.v)
         /\ Props(Ev.phi, Ev.K, User(Ev.por, Ev.pords), User(Ev.perm, Ev.permds \o "X"), User(Ev.perm, Ev.permds \o "Y"), User(Ev.perm, Ev.permds \o "Z"))
         /\ (RC /\ Ev.ic # "" => Restored(Holds(Ev.ic, Ev.icds, Ev.ict), run', Ev.u, Ev.v, Ev.w))
TNext == \/ Is("Begin") /\ run' = NoRun /\ st' = <<>> /\ chk' = {} /\ usr' = {} /\ out' = NoOut
         \/ TOpen
         \/ Is("state") /\ Set(Ev.v)
         \/ Is("chk") /\ Checkpoint(Ev.t, Ev.step, Ev.ok)
         \/ Is("file") /\ UserFile(Ev.n, Ev.ds, Ev.x)
         \/ Is("readic") /\ Read(Holds(Ev.n, Ev.ds, Ev.t), Ev.ok, Ev.u, Ev.v, Ev.w)
         \/ Is("out") /\ Output(Ev.ok)
         \/ Is("write") /\ Write(Ev.t, Ev.ok)
         \/ Is("close") /\ Close(Ev.ok)
         \/ Is("chks") /\ Checkpoints(Range(Ev.files)) /\ UNCHANGED vars
         \/ Is("outs") /\ OutputFiles(Ev.has, Ev.hasd, Range(Ev.fields), Ev.rows, Ev.verts, Ev.d, Ev.C, Ev.X, Range(Ev.paths)) /\ UNCHANGED vars
         \/ Is("Done") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
