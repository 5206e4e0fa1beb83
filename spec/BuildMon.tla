------------------------------ MODULE BuildMon ------------------------------
(***************************************************************************)
(* The observable state of a project and the meaning of every observable    *)
(* event. Each event updates the state and adds to `bad` the guarantees it  *)
(* breaks. BuildTrace feeds it events recorded from the real library;       *)
(* BuildAlgo feeds it the events of a model of the library's algorithm.     *)
(***************************************************************************)
EXTENDS BuildCore

VARIABLES
  disk,   \* file -> stamp
  made,   \* stamp "x<n>" -> the execution that produced it
  desc,   \* description of the current / last run
  done,   \* step -> key of its last successful execution
  unk,    \* builders whose bookkeeping may have been lost (crash, corruption)
  r,      \* the current run
  bad     \* broken guarantees <<tag, what>>

monvars == <<disk, made, desc, done, unk, r, bad>>

Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Empty == [x \in {} |-> 0]
D(f) == IF f \in DOMAIN disk THEN disk[f] ELSE "-"

NoRun == [on |-> FALSE, act |-> {}, started |-> {}, ended |-> {}, failed |-> {}, post |-> FALSE,
          reg |-> FALSE, race |-> FALSE, died |-> FALSE, iofail |-> {}, missing |-> {}, runs |-> 0]

MonInit(files) ==
  /\ disk = files /\ made = Empty /\ done = Empty /\ unk = {} /\ r = NoRun /\ bad = {}
  /\ desc = [builders |-> <<>>, deps |-> <<>>, tests |-> <<>>, off |-> <<>>, offdeps |-> <<>>, offtests |-> <<>>]

Flag(S) == bad' = bad \cup S
If(c, tag, what) == IF c THEN {<<tag, what>>} ELSE {}

(* ------------------------------------------------------------ events ---- *)
OnWrite(f, s) ==
  /\ disk' = (f :> s) @@ disk
  /\ UNCHANGED <<made, desc, done, unk, r, bad>>

OnRun(d, race) ==
  /\ desc' = d
  /\ r' = [NoRun EXCEPT !.on = TRUE, !.race = race, !.runs = r.runs + 1,
             !.missing = {b.name : b \in {x \in Builders(d) : \E f \in Supplied(d, x) : D(f) = "-"}}]
  /\ UNCHANGED <<disk, made, done, unk, bad>>

OnRegistered == r' = [r EXCEPT !.reg = TRUE] /\ UNCHANGED <<disk, made, desc, done, unk, bad>>

(* e : [x, k, b, s, out, reads, toks, incl, outs, blob] *)
Of(S, b) == {st \in S : st[2] = b}
Known(e) ==
  /\ e.b \in Names(desc)
  /\ LET b == B(desc, e.b)
     IN CASE e.k = "obj" -> b.kind = "target" /\ e.s \in Range(b.src)
          [] e.k = "pch" -> b.kind = "target" /\ HasPch(b)
          [] e.k = "link" -> b.kind = "target"
          [] e.k = "test" -> b.kind = "target" /\ e.b \in Range(desc.tests)
          [] e.k = "gen" -> b.kind = "gen" /\ e.s \in IdNames(b)
          [] e.k = "gcmd" -> b.kind = "filegen" /\ e.s \in {ToString(k) : k \in DOMAIN b.cmds}
          [] OTHER -> FALSE

(* switched off: registered under a condition that does not hold *)
Off(e) == \/ e.b \in {b.name : b \in Range(desc.off)}
          \/ e.k = "test" /\ e.b \in Range(desc.offtests)

(* the command is the one the description asks for, and it writes what it    *)
(* should and nothing else                                                   *)
OutsOf(e) ==
  LET b == B(desc, e.b)
  IN CASE e.k = "obj" -> {ObjOut(desc, b, e.s)}
       [] e.k = "pch" -> PchOuts(desc, b)
       [] e.k = "link" -> LinkOuts(desc, b)
       [] OTHER -> Range(e.outs)
Faithful(e) ==
  LET b == B(desc, e.b)
  IN /\ Range(e.outs) = OutsOf(e)
     /\ CASE e.k = "obj" -> e.toks = ObjCmd(desc, b, e.s)
       [] e.k = "pch" -> e.toks = PchCmd(desc, b) /\ e.incl = b.pch
       [] e.k = "link" -> IsLinkCmd(desc, b, e.toks)
       [] e.k = "test" -> e.toks = TestCmd(desc, b) /\ e.wd = TestDir(desc) /\ e.cap = TestCaught(desc, e.b)
       [] e.k = "gen" -> /\ DOMAIN e.reads = Range(Id(b, e.s).in)
                         /\ Range(e.outs) = Range(Id(b, e.s).out)
                         /\ e.blob = Id(b, e.s).blob
       [] e.k = "gcmd" -> \E k \in DOMAIN b.cmds : ToString(k) = e.s /\ e.toks = GCmd(b, k)
       [] OTHER -> FALSE

Stage(k) == CASE k = "pch" -> 1 [] k = "obj" -> 2 [] k = "link" -> 3 [] OTHER -> 2

(* nothing this step must wait for is still running or still to come *)
OrderOk(e) ==
  /\ \A st \in Of(r.act, e.b) : Stage(st[1]) >= Stage(e.k)          \* earlier stage still running
  /\ \A st \in Of(r.started, e.b) : Stage(st[1]) <= Stage(e.k)      \* a later stage already began
  /\ \A n \in DepsStar(desc, e.b) : Of(r.act, n) = {}
  /\ \A n \in Names(desc) : e.b \in DepsStar(desc, n) => Of(r.started, n) = {}
  /\ e.k = "gcmd" => /\ Of(r.act, e.b) = {}
                     /\ \A k \in DOMAIN B(desc, e.b).cmds :
                          ToString(k) # e.s =>
                            LET j == CHOOSE m \in DOMAIN B(desc, e.b).cmds : ToString(m) = e.s
                            IN IF k < j THEN <<"gcmd", e.b, ToString(k)>> \in r.ended
                               ELSE <<"gcmd", e.b, ToString(k)>> \notin r.started

FailedOf(b) == Of(r.failed, b)
ContainOk(e) ==
  /\ \A n \in DepsStar(desc, e.b) : FailedOf(n) = {} /\ n \notin r.missing
  /\ \A st \in FailedOf(e.b) : Stage(st[1]) >= Stage(e.k)
  /\ e.k = "gcmd" => FailedOf(e.b) = {}

(* The key a step is carried out with: what it reads, not what was there.    *)
ReadD(e, f) == IF f \in DOMAIN e.reads THEN e.reads[f] ELSE D(f)

(* a step is justified when nothing proves it redundant *)
Justified(e, st) ==
  LET R(f) == ReadD(e, f)
  IN \/ e.b \in unk
     \/ st \notin DOMAIN done
     \/ done[st] # Key(desc, st, R)

OnStart(e) ==
  LET st == <<e.k, e.b, e.s>>
      known == Known(e)
      build == e.k # "test"
  IN /\ made' = ("x" \o ToString(e.x)) :> e @@ made
     /\ r' = [r EXCEPT !.act = @ \cup {st}, !.started = @ \cup {st}]
     /\ Flag(If(~r.on \/ ~r.reg, "phase", st)
             \cup If(Off(e), "select", st)
             \cup If(~known /\ ~Off(e), "command", st)
             \cup (IF ~known THEN {} ELSE
                   If(~Faithful(e), "command", st)
                   \cup If(st \in r.started, "twice", st)
                   \cup If(build /\ ~OrderOk(e), "order", st)
                   \cup If(build /\ ~ContainOk(e), "contain", st)
                   \cup If(build /\ r.post, "order", st)
                   \cup If(build /\ ~r.race /\ ~Justified(e, st), "minimal", st)
                   \cup If(~build /\ (~r.post \/ {x \in r.act : x[1] # "test"} # {}), "test", st)
                   \cup If(~build /\ {x \in r.failed : x[1] # "test"} # {}, "contain", st)))
     /\ UNCHANGED <<disk, desc, done, unk>>

OnEnd(e) == \* e : [x, k, b, s, ok]
  LET st == <<e.k, e.b, e.s>>
      m == made["x" \o ToString(e.x)]
      R(f) == ReadD(m, f)
      outs == IF e.k = "test" THEN {} ELSE Range(m.outs)
  IN /\ r' = [r EXCEPT !.act = @ \ {st}, !.ended = @ \cup {st},
                       !.failed = IF e.ok THEN @ ELSE @ \cup {st}]
     /\ disk' = IF e.ok THEN [o \in outs |-> "x" \o ToString(e.x)] @@ disk ELSE disk
     /\ done' = IF e.ok /\ Known(m) THEN (st :> Key(desc, st, R)) @@ done
                ELSE Restrict(done, DOMAIN done \ {st})
     /\ UNCHANGED <<made, desc, unk, bad>>

OnPost ==
  /\ r' = [r EXCEPT !.post = TRUE]
  /\ Flag(If(r.failed # {} \/ r.missing # {} \/ r.iofail # {}, "contain", <<"post", "", "">>)
          \cup If(r.act # {}, "order", <<"post", "", "">>))
  /\ UNCHANGED <<disk, made, desc, done, unk>>

OnDie == r' = [r EXCEPT !.died = TRUE] /\ UNCHANGED <<disk, made, desc, done, unk, bad>>
OnIoFail(b) == r' = [r EXCEPT !.iofail = @ \cup {b}] /\ UNCHANGED <<disk, made, desc, done, unk, bad>>
OnDone == UNCHANGED monvars
(* a callback registered under a condition that does not hold was invoked *)
OnOff(b) == Flag({<<"select", <<"callback", b, "">>>>}) /\ UNCHANGED <<disk, made, desc, done, unk, r>>
(* what became of the output of a test, at the end of a successful run       *)
OnOutput(e) ==
  LET got == IF TestOut(desc, e.b) \in {"user", "usero", "usere"} THEN TestCaught(desc, e.b) ELSE ""
  IN /\ Flag(If(e.b \in Range(desc.tests) /\ (e.got # got \/ e.shown # TestShown(desc, e.b)), "test", <<"output", e.b, "">>))
     /\ UNCHANGED <<disk, made, desc, done, unk, r>>
OnCorrupt(b) == unk' = unk \cup {b} /\ UNCHANGED <<disk, made, desc, done, r, bad>>

(* --------------------------------------------------------- freshness ---- *)
(* F(f): content of f when the run ended                                     *)
Made(dk, f) == f \in DOMAIN dk /\ dk[f] \in DOMAIN made
(* it was made from exactly the inputs in S, as they are now *)
ReadsMatch(e, S, dk) == DOMAIN e.reads = S /\ \A f \in S : f \in DOMAIN dk /\ e.reads[f] = dk[f]

PchFresh(t, dk) ==
  \A o \in PchOuts(desc, t) :
     Made(dk, o) /\ LET e == made[dk[o]]
                    IN e.k = "pch" /\ e.toks = PchCmd(desc, t) /\ e.incl = t.pch
                       /\ ReadsMatch(e, PchInputs(t), dk)
ObjFresh(t, s, dk) ==
  LET o == ObjOut(desc, t, s)
  IN Made(dk, o) /\ LET e == made[dk[o]]
                    IN e.k = "obj" /\ e.s = s /\ e.toks = ObjCmd(desc, t, s)
                       /\ ReadsMatch(e, ObjInputs(desc, t, s), dk)
(* an archive keeps the members of the archive it was added to *)
RECURSIVE Members(_)
Members(e) == {e.toks[k] : k \in {j \in 4..Len(e.toks) : TRUE}}
                \cup (IF e.old \in DOMAIN made THEN Members(made[e.old]) ELSE {})
LinkFresh(t, dk) ==
  \A o \in LinkOuts(desc, t) :
     Made(dk, o) /\ LET e == made[dk[o]]
                    IN e.k = "link" /\ IsLinkCmd(desc, t, e.toks)
                       /\ (IsArchive(desc, t) => Members(e) = Objs(desc, t))
                       /\ ReadsMatch(e, LinkInputs(desc, t), dk)
IdFresh(g, i, dk) ==
  \A o \in Range(i.out) :
    Made(dk, o) /\ LET e == made[dk[o]]
                   IN e.k = "gen" /\ e.b = g.name /\ e.s = i.id /\ e.blob = i.blob
                      /\ Range(e.outs) = Range(i.out)
                      /\ ReadsMatch(e, Range(i.in), dk)
FileGenFresh(g, dk) ==
  \A o \in Range(g.out) :
    Made(dk, o) /\ LET e == made[dk[o]]
                   IN e.k = "gcmd" /\ e.b = g.name
                      /\ \E k \in DOMAIN g.cmds : ToString(k) = e.s /\ g.cmds[k].out = o
                            /\ e.toks = GCmd(g, k) /\ ReadsMatch(e, {g.cmds[k].in} \cup Range(g.in), dk)

(* templates are expanded by the library itself: the stamp of a product is    *)
(* its content, "@" and when it was written                                  *)
UpToAt(x) == SubSeq(x, 1, Least({k \in 1..Len(x) : SubSeq(x, k, k) = "@"} \cup {Len(x) + 1}) - 1)
TmplFresh(g, m, dk) == m.out \in DOMAIN dk /\ m.in \in DOMAIN dk /\ UpToAt(dk[m.out]) = TmplVal(desc, g, m.in, dk[m.in])
TmplSet(d) == UNION {{<<g, m>> : m \in Range(g.tmpls)} : g \in Tmpls(d)}

Stale(dk) ==
  UNION ({ {<<"pch", t.name, "">> : x \in IF HasPch(t) /\ ~PchFresh(t, dk) THEN {1} ELSE {}}
           \cup {<<"obj", t.name, s>> : s \in {q \in Range(t.src) : ~ObjFresh(t, q, dk)}}
           \cup {<<"link", t.name, "">> : x \in IF ~LinkFresh(t, dk) THEN {1} ELSE {}}
           : t \in Targets(desc)}
         \cup { {<<"gen", g.name, i.id>> : i \in {q \in Range(g.ids) : ~IdFresh(g, q, dk)}} : g \in Gens(desc)}
         \cup { {<<"tmpl", g.name, m.in>> : m \in {q \in Range(g.tmpls) : ~TmplFresh(g, q, dk)}} : g \in Tmpls(desc)}
         \cup { {<<"gcmd", g.name, "">> : x \in IF FileGenFresh(g, dk) THEN {} ELSE {1}} : g \in FileGens(desc)})

(* ---------------------------------------------------------------- exit -- *)
BuildFailed == {x \in r.failed : x[1] # "test"} # {} \/ r.missing # {} \/ r.iofail # {}
Failed == BuildFailed \/ r.failed # {}

(* What a run makes redoing legitimate although nothing changed: steps that  *)
(* are no longer part of the project; and, when the run failed, changed ids   *)
(* it did not get to, all commands of a file generator of which one failed (they  *)
(* are one unit), and the later stages of a target it had begun to update.   *)
Forget(d, F(_)) ==
  LET gone == {st \in DOMAIN done : st[2] \in Names(d) /\ st \notin Steps(d)}
      begun == {b \in Names(d) : Of(r.started, b) # {}}
      lost == IF ~Failed THEN {}
              ELSE {st \in DOMAIN done \ gone :
                      \/ st[1] \in {"gen", "tmpl"} /\ st[2] \in Names(d) /\ st \notin r.ended /\ done[st] # Key(d, st, F)
                      \/ st[1] = "gcmd" /\ FailedOf(st[2]) # {}
                      \/ /\ st[2] \in begun /\ st \notin r.ended
                         /\ \E x \in Of(r.started, st[2]) : Stage(x[1]) < Stage(st[1])}
  IN gone \cup lost

(* what the compilation database holds, when one is asked for *)
CompDb(d) == {[dir |-> InWs(d.build), cmd |-> ObjCmd(d, B(d, ts[1]), ts[2]), file |-> Abs(ts[2])] :
                ts \in UNION {{<<t.name, s>> : s \in Range(t.src)} : t \in Targets(d)}}

OnExit(e) == \* e : [how, code, files, cdb]
  LET crashed == r.died \/ e.how # "code"
      ok == e.how = "code" /\ e.code = 0
      stale == IF ok /\ ~r.race THEN Stale(e.files) ELSE {}
      F(f) == IF f \in DOMAIN e.files THEN e.files[f] ELSE "-"
      wrote == {gm \in TmplSet(desc) : F(gm[2].out) # D(gm[2].out)}
      wsteps == {<<"tmpl", gm[1].name, gm[2].in>> : gm \in wrote}
      waste == {st \in wsteps : st[2] \notin unk /\ st \in DOMAIN done /\ done[st] = Key(desc, st, F)}
      done1 == [st \in wsteps |-> Key(desc, st, F)] @@ done
      gone == {st \in Forget(desc, F) : st \notin wsteps}
  IN /\ disk' = e.files
     /\ done' = Restrict(done1, DOMAIN done1 \ gone)
     /\ unk' = IF crashed \/ r.race THEN unk \cup Names(desc)
               ELSE IF ok THEN unk \ Names(desc)
               ELSE unk \cup r.iofail
     /\ r' = [r EXCEPT !.on = FALSE]
     /\ Flag({<<"fresh", st>> : st \in stale}
             \cup {<<"minimal", st>> : st \in IF r.race \/ crashed THEN {} ELSE waste}
             \cup If(e.how \in {"hang", "signal"}, "term", <<e.how, "", "">>)
             \cup If(e.how = "killed" /\ ~r.died, "term", <<e.how, "", "">>)
             \cup If(ok /\ Failed, "exit", <<"reported success", "", "">>)
             \cup If(e.how = "code" /\ ~ok /\ ~Failed /\ ~r.race /\ ~r.died, "exit", <<"reported failure", "", "">>)
             \cup If(ok /\ ~r.post, "exit", <<"no post build", "", "">>)
             \cup If(ok /\ desc.compdb /\ ~r.race /\ Range(e.cdb) # CompDb(desc),
                     "compdb", <<"compile_commands.json", "", "">>)
             \cup If(e.how = "code" /\ ~r.died /\ ~BuildFailed /\ r.post
                       /\ {x \in r.ended : x[1] = "test"} # Tests(desc),
                     "test", <<"not all tests ran", "", "">>))
     /\ UNCHANGED <<made, desc>>
=============================================================================
