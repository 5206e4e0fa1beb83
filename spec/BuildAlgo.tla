------------------------------ MODULE BuildAlgo ------------------------------
(***************************************************************************)
(* The incremental build as the library carries it out: one record per      *)
(* builder, a global failure flag, builders as processes with stages, any    *)
(* interleaving of ready steps; steps may fail, the process may die at any   *)
(* moment, files may be edited during a run. The guarantees are those of     *)
(* BuildMon: every event goes to the monitor, and nothing may be `bad`.      *)
(* `Flaws` puts known mistakes back in, to show that the guarantees notice.  *)
(***************************************************************************)
EXTENDS BuildMon, SequencesExt

U == INSTANCE Universe
CONSTANTS Project,     \* the project at first
          Moves(_),    \* the changes considered
          MaxRuns, MaxMoves, MaxFaults, Faults, Flaws

VARIABLES p, was, rec, L, flag, ph, x, moves, faults, raced
algo == <<p, was, rec, L, flag, ph, x, moves, faults, raced>>
vars == <<monvars, algo>>

NoRec == [none |-> TRUE]
Flaw(f) == f \in Flaws
FilesOf(q) == [f \in DOMAIN q.v |-> "v" \o ToString(q.v[f])]

Init ==
  /\ p = Project /\ was = Project /\ MonInit(FilesOf(Project))
  /\ rec = [b \in {} |-> NoRec] /\ L = [b \in {} |-> 0] /\ flag = FALSE /\ ph = "idle"
  /\ x = 0 /\ moves = 0 /\ faults = 0 /\ raced = FALSE

(* ------------------------------------------------------------- the user --- *)
Goto(q) ==
  /\ p' = q /\ was' = p /\ moves' = moves + 1
  /\ disk' = [f \in DOMAIN q.v |-> "v" \o ToString(q.v[f])] @@ disk
  /\ UNCHANGED <<made, desc, done, unk, r, bad, rec, L, flag, ph, x, faults, raced>>
Move == ph = "idle" /\ r.runs > 0 /\ moves < MaxMoves /\ \E c \in Moves(p) : Goto(c[2])
Back == ph = "idle" /\ r.runs > 1 /\ moves < MaxMoves /\ moves > 0 /\ was # p /\ Goto(was)

d == p.d
(* where the record of a builder is kept *)
RK(n) == LET b == B(d, n) IN IF b.kind = "target" THEN OutDir(d, b) ELSE BuildBase(d, b) \o "/" \o n
(* ------------------------------------------------------- a run begins --- *)
Empty3 == [s \in {} |-> ""]
Fresh(b) == [st |-> IF b.kind # "target" THEN "ids" ELSE IF HasPch(b) THEN "pch" ELSE "obj",
             dirty |-> FALSE, load |-> IF RK(b.name) \in DOMAIN rec THEN rec[RK(b.name)] ELSE NoRec,
             user |-> NoRec, todo |-> {}, run |-> {}, good |-> {},
             srcs |-> Empty3, pchok |-> FALSE, cpp |-> FALSE, linked |-> FALSE]
Begin(race) ==
  /\ ph = "idle" /\ r.runs < MaxRuns /\ (race => "race" \in Faults /\ faults < MaxFaults)
  /\ OnRun(p.d, race) /\ ph' = "begun"
  /\ L' = [n \in Names(p.d) |-> Fresh(B(p.d, n))] /\ flag' = FALSE
  /\ faults' = IF race THEN faults + 1 ELSE faults
  /\ raced' = FALSE /\ UNCHANGED <<p, was, rec, x, moves>>
Registered == ph = "begun" /\ OnRegistered /\ ph' = "build" /\ UNCHANGED <<p, was, rec, L, flag, x, moves, faults, raced>>

(* ----------------------------------------------------------- the stages --- *)
Ready(n) == Flaw("noedges") \/ \A m \in DirectDeps(d, n) : L[m].st = "done"
Stop == flag /\ ~Flaw("nostop")
Absent(S) == \E f \in S : D(f) = "-"
Quiet == UNCHANGED <<monvars, p, was, x, moves, ph, faults, raced>>
Set(n, l) == L' = [L EXCEPT ![n] = l]
Unrecord(n) == rec' = IF Flaw("keeprecord") THEN rec ELSE Restrict(rec, DOMAIN rec \ {RK(n)})

Start(n, k, s, reads, toks, incl, outs, blob) ==
  LET e == [x |-> x + 1, k |-> k, b |-> n, s |-> s, reads |-> [f \in reads |-> D(f)], toks |-> toks, incl |-> incl,
            outs |-> outs, blob |-> blob, wd |-> "",
            old |-> IF Flaw("archive") /\ k = "link" THEN D(outs[1]) ELSE "-"]
  IN OnStart(e) /\ x' = x + 1
LastOf(k, n, s) == \* the execution in progress of a step
  CHOOSE e \in Range(made) : e.k = k /\ e.b = n /\ e.s = s
                             /\ \A o \in Range(made) : (o.k = k /\ o.b = n /\ o.s = s) => o.x <= e.x
Ended(k, n, s, ok) ==
  /\ OnEnd([x |-> LastOf(k, n, s).x, k |-> k, b |-> n, s |-> s, ok |-> ok])
  /\ ~ok => "fail" \in Faults /\ faults < MaxFaults
  /\ faults' = IF ok THEN faults ELSE faults + 1
  /\ UNCHANGED <<p, was, rec, x, moves, ph, raced>>

CFlags(t) == [k \in {"pre", "com", "pcho", "asm", "c", "cpp"} |-> Flags(d, t, k)]
PFlags(t) == [k \in {"pre", "com", "pchc", "c", "cpp"} |-> Flags(d, t, k)]
Hashed(seq) == Stamped(seq, D)
User0(t) == [none |-> FALSE, type |-> t.type, cflags |-> CFlags(t), pflags |-> PFlags(t), lflags |-> Flags(d, t, "lnk"),
             inc |-> t.inc, ldir |-> t.ldir, xlibs |-> t.xlibs, hdr |-> <<>>, pch |-> <<>>, cdep |-> <<>>, ldep |-> <<>>,
             libs |-> <<>>, srcs |-> Empty3, pchok |-> FALSE, cpp |-> FALSE, linked |-> FALSE]
UserOf(n) == IF L[n].user.none THEN User0(B(d, n)) ELSE L[n].user

PchCheck(n) ==
  LET t == B(d, n)
      u == [UserOf(n) EXCEPT !.hdr = Hashed(t.hdr), !.pch = Hashed(t.pch), !.cpp = HasCpp(t)]
      o == L[n].load
      dirty == \/ o.none \/ o.pflags # u.pflags \/ o.inc # u.inc \/ o.hdr # u.hdr \/ o.pch # u.pch
               \/ (o.cpp # u.cpp /\ ~Flaw("pchlang")) \/ ~o.pchok
      l == [L[n] EXCEPT !.user = u, !.dirty = dirty]
  IN /\ ph = "build" /\ L[n].st = "pch" /\ Ready(n)
     /\ IF Stop THEN Set(n, [L[n] EXCEPT !.st = "obj"]) /\ UNCHANGED <<rec, flag>> /\ Quiet
        ELSE IF Absent(PchInputs(t)) THEN flag' = TRUE /\ Set(n, [L[n] EXCEPT !.st = "obj"]) /\ UNCHANGED rec /\ Quiet
        ELSE IF dirty THEN /\ Start(n, "pch", "", PchInputs(t), PchCmd(d, t), t.pch, SetToSeq(PchOuts(d, t)), "")
                           /\ Set(n, [l EXCEPT !.st = "pchrun"]) /\ Unrecord(n) /\ UNCHANGED <<flag, p, was, moves, ph, faults, raced>>
        ELSE Set(n, [l EXCEPT !.st = "obj", !.pchok = TRUE, !.cpp = u.cpp]) /\ UNCHANGED <<rec, flag>> /\ Quiet
PchEnd(n, ok) ==
  /\ ph = "build" /\ L[n].st = "pchrun" /\ Ended("pch", n, "", ok)
  /\ Set(n, IF ok THEN [L[n] EXCEPT !.st = "obj", !.pchok = TRUE, !.cpp = L[n].user.cpp] ELSE [L[n] EXCEPT !.st = "obj"])
  /\ flag' = (flag \/ ~ok)

ObjCheck(n) ==
  LET t == B(d, n)
      u0 == UserOf(n)
      u == [u0 EXCEPT !.hdr = IF HasPch(t) /\ ~Flaw("hashlate") THEN @ ELSE Hashed(t.hdr), !.cdep = Hashed(t.cdep)]
      o == L[n].load
      all == Range(t.src)
      dirty0 == \/ L[n].dirty \/ o.none \/ o.cflags # u.cflags \/ o.inc # u.inc \/ o.hdr # u.hdr
                \/ (o.pch # u.pch /\ ~Flaw("pchgone")) \/ o.cdep # u.cdep
      changed == IF dirty0 THEN all ELSE {s \in all : s \notin DOMAIN o.srcs \/ o.srcs[s] # D(s)}
      gone == ~dirty0 /\ DOMAIN o.srcs \ all # {}
      dirty == dirty0 \/ changed # {} \/ gone
      l == [L[n] EXCEPT !.user = [u EXCEPT !.srcs = [s \in all |-> D(s)]], !.dirty = dirty, !.todo = changed,
                        !.srcs = [s \in all \ changed |-> D(s)], !.st = IF changed = {} THEN "link" ELSE "objrun"]
  IN /\ ph = "build" /\ L[n].st = "obj" /\ Ready(n) /\ Quiet
     /\ IF Stop THEN Set(n, [L[n] EXCEPT !.st = "link"]) /\ UNCHANGED <<rec, flag>>
        ELSE IF Absent(all \cup Range(t.hdr) \cup Range(t.cdep)) THEN flag' = TRUE /\ Set(n, [L[n] EXCEPT !.st = "link"]) /\ UNCHANGED rec
        ELSE Set(n, l) /\ UNCHANGED flag /\ IF dirty THEN Unrecord(n) ELSE UNCHANGED rec
ObjStart(n, s) ==
  LET t == B(d, n) IN
  /\ ph = "build" /\ L[n].st = "objrun" /\ s \in L[n].todo
  /\ Start(n, "obj", s, ObjInputs(d, t, s), ObjCmd(d, t, s), <<>>, <<ObjOut(d, t, s)>>, "")
  /\ Set(n, [L[n] EXCEPT !.todo = @ \ {s}, !.run = @ \cup {s}])
  /\ UNCHANGED <<p, was, rec, flag, ph, moves, faults, raced>>
ObjEnd(n, s, ok) ==
  LET rest == L[n].todo \cup (L[n].run \ {s})
      l == [L[n] EXCEPT !.run = @ \ {s}, !.st = IF rest = {} THEN "link" ELSE "objrun"]
  IN /\ ph = "build" /\ L[n].st = "objrun" /\ s \in L[n].run /\ Ended("obj", n, s, ok)
     /\ Set(n, IF ok \/ Flaw("storeall") THEN [l EXCEPT !.srcs = (s :> L[n].user.srcs[s]) @@ @] ELSE l)
     /\ flag' = (flag \/ ~ok)

LinkCheck(n) ==
  LET t == B(d, n)
      u == [UserOf(n) EXCEPT !.libs = Hashed(LibPaths(d, t)), !.ldep = Hashed(t.ldep)]
      o == L[n].load
      dirty == \/ L[n].dirty \/ o.none \/ (o.type # u.type /\ ~Flaw("type")) \/ o.lflags # u.lflags \/ o.ldir # u.ldir
               \/ o.xlibs # u.xlibs \/ o.ldep # u.ldep \/ o.libs # u.libs \/ ~o.linked
      sh == LinkShape(d, t)
  IN /\ ph = "build" /\ L[n].st = "link" /\ Ready(n)
     /\ IF Stop THEN Set(n, [L[n] EXCEPT !.st = "end"]) /\ UNCHANGED <<rec, flag>> /\ Quiet
        ELSE IF Absent(Range(LibPaths(d, t)) \cup Range(t.ldep)) THEN flag' = TRUE /\ Set(n, [L[n] EXCEPT !.st = "end"]) /\ UNCHANGED rec /\ Quiet
        ELSE IF dirty \/ Flaw("alwayslink")
             THEN /\ Start(n, "link", "", LinkInputs(d, t), sh.pre \o SetToSeq(Objs(d, t)) \o sh.post, <<>>, SetToSeq(LinkOuts(d, t)), "")
                  /\ Set(n, [L[n] EXCEPT !.user = u, !.dirty = TRUE, !.st = "linkrun"]) /\ Unrecord(n)
                  /\ UNCHANGED <<flag, p, was, moves, ph, faults, raced>>
        ELSE Set(n, [L[n] EXCEPT !.user = u, !.st = "end"]) /\ UNCHANGED <<rec, flag>> /\ Quiet
LinkEnd(n, ok) ==
  /\ ph = "build" /\ L[n].st = "linkrun" /\ Ended("link", n, "", ok)
  /\ Set(n, [L[n] EXCEPT !.st = "end", !.linked = ok]) /\ flag' = (flag \/ ~ok)
Store(n) == \* the record of a target
  LET l == L[n] u == UserOf(n) IN
  [u EXCEPT !.srcs = IF Flaw("allsources") THEN u.srcs ELSE l.srcs, !.pchok = l.pchok,
            !.pch = IF l.pchok THEN u.pch ELSE <<>>, !.cpp = l.cpp, !.linked = l.linked]
End(n) ==
  /\ ph = "build" /\ L[n].st = "end" /\ Quiet /\ UNCHANGED flag
  /\ rec' = IF L[n].dirty THEN (RK(n) :> Store(n)) @@ rec ELSE rec
  /\ Set(n, [L[n] EXCEPT !.st = "done"])

(* ----------------------------------------------------------- generators --- *)
(* a generator with ids, or one list of commands ("filegen": one id, its     *)
(* commands in order)                                                        *)
IdsOf(g) == IF g.kind = "gen" THEN IdNames(g) ELSE {"generate"}
InOf(g, i) == IF g.kind = "gen" THEN Range(Id(g, i).in) ELSE Range(g.in)
KeyOf(g, i) == IF g.kind = "gen" THEN IdKey(Id(g, i), D) ELSE FileGenKey(g, D)
IdsCheck(n) ==
  LET g == B(d, n) o == L[n].load
      gone == ~o.none /\ DOMAIN o.ids \ IdsOf(g) # {}
      added == o.none \/ IdsOf(g) \ DOMAIN o.ids # {}
  IN /\ ph = "build" /\ L[n].st = "ids" /\ Ready(n) /\ Quiet /\ UNCHANGED <<rec, flag>>
     /\ Set(n, IF Stop THEN [L[n] EXCEPT !.st = "done"]
               ELSE [L[n] EXCEPT !.st = "idrun", !.todo = IdsOf(g), !.dirty = gone \/ added, !.user = [none |-> FALSE, ids |-> Empty3]])
IdCmds(g, i) == IF g.kind = "gen" THEN <<i>> ELSE [k \in DOMAIN g.cmds |-> ToString(k)]
StartId(g, i, k) == \* the k-th command of an id
  IF g.kind = "gen"
  THEN Start(g.name, "gen", i, InOf(g, i), <<>>, <<>>, Id(g, i).out, Id(g, i).blob)
  ELSE Start(g.name, "gcmd", ToString(k), InOf(g, i) \cup {g.cmds[k].in}, GCmd(g, k), <<>>, <<g.cmds[k].out>>, "")
IdKind(g) == IF g.kind = "gen" THEN "gen" ELSE "gcmd"
IdStart(n, i) ==
  LET g == B(d, n) o == L[n].load
      fresh == ~o.none /\ i \in DOMAIN o.ids /\ o.ids[i] = KeyOf(g, i)
      l == [L[n] EXCEPT !.todo = @ \ {i}]
  IN /\ ph = "build" /\ L[n].st = "idrun" /\ i \in L[n].todo
     /\ IF Stop /\ Flaw("idstop") THEN Set(n, l) /\ UNCHANGED <<rec, flag>> /\ Quiet
        ELSE IF Absent(InOf(g, i)) THEN Set(n, l) /\ flag' = TRUE /\ UNCHANGED rec /\ Quiet
        ELSE IF fresh THEN Set(n, [l EXCEPT !.good = @ \cup {i}, !.user.ids = (i :> KeyOf(g, i)) @@ @]) /\ UNCHANGED <<rec, flag>> /\ Quiet
        ELSE IF Stop THEN Set(n, [l EXCEPT !.dirty = TRUE]) /\ UNCHANGED <<rec, flag>> /\ Quiet
        ELSE /\ StartId(g, i, 1) /\ Unrecord(n)
             /\ Set(n, [l EXCEPT !.run = @ \cup {<<i, 1>>}, !.dirty = TRUE, !.user.ids = (i :> KeyOf(g, i)) @@ @])
             /\ UNCHANGED <<flag, p, was, moves, ph, faults, raced>>
IdEnd(n, ik, ok) ==
  LET g == B(d, n) i == ik[1] k == ik[2] last == k = Len(IdCmds(g, i)) IN
  /\ ph = "build" /\ L[n].st = "idrun" /\ ik \in L[n].run
  /\ Ended(IdKind(g), n, IdCmds(g, i)[k], ok)
  /\ Set(n, IF ok /\ ~last THEN [L[n] EXCEPT !.run = (@ \ {ik}) \cup {<<i, -(k + 1)>>}]
            ELSE [L[n] EXCEPT !.run = @ \ {ik}, !.good = IF ok \/ Flaw("idfailed") THEN @ \cup {i} ELSE @,
                              !.user.ids = IF Flaw("idlate") THEN (i :> KeyOf(g, i)) @@ @ ELSE @])
  /\ flag' = (flag \/ ~ok)
IdNext(n, ik) == \* the next command of a list
  LET g == B(d, n) k == -ik[2] IN
  /\ ph = "build" /\ L[n].st = "idrun" /\ ik \in L[n].run /\ ik[2] < 0
  /\ StartId(g, ik[1], k) /\ Set(n, [L[n] EXCEPT !.run = (@ \ {ik}) \cup {<<ik[1], k>>}])
  /\ UNCHANGED <<p, was, rec, flag, ph, moves, faults, raced>>
IdsEnd(n) ==
  /\ ph = "build" /\ L[n].st = "idrun" /\ L[n].todo = {} /\ L[n].run = {} /\ Quiet /\ UNCHANGED flag
  /\ rec' = IF L[n].dirty THEN (RK(n) :> [none |-> FALSE, ids |-> Restrict(L[n].user.ids, L[n].good)]) @@ rec ELSE rec
  /\ Set(n, [L[n] EXCEPT !.st = "done"])

(* -------------------------------------------------------- end of a run --- *)
AllDone == \A n \in DOMAIN L : L[n].st = "done"
ExitWith(how, code, files) ==
  /\ OnExit([how |-> how, code |-> code, files |-> files, cdb |-> <<>>])
  /\ ph' = "idle" /\ L' = [b \in {} |-> 0] /\ UNCHANGED <<p, was, rec, flag, x, moves, faults, raced>>
Post == ph = "build" /\ AllDone /\ ~flag /\ OnPost /\ ph' = "post" /\ UNCHANGED <<p, was, rec, L, flag, x, moves, faults, raced>>
ExitOk == ph = "post" /\ ExitWith("code", 0, disk)
FailedOuts == UNION {Range(LastOf(st[1], st[2], st[3]).outs) : st \in r.failed}
ExitBad == ph = "build" /\ AllDone /\ flag /\ \E g \in {{}, FailedOuts} : ExitWith("code", 1, [f \in g |-> "garbled" \o ToString(x)] @@ disk)
(* dying: commands in progress leave their outputs as they were, or garbled  *)
Die ==
  /\ ph \in {"begun", "build", "post"} /\ "crash" \in Faults /\ faults < MaxFaults
  /\ OnDie /\ ph' = "dying" /\ faults' = faults + 1
  /\ \E torn \in {{}} \cup {{RK(n)} : n \in {m \in DOMAIN L : L[m].st = "end" /\ L[m].dirty}} :
       rec' = Restrict(rec, DOMAIN rec \ torn)
  /\ UNCHANGED <<p, was, L, flag, x, moves, raced>>
InProgress == UNION {Range(LastOf(st[1], st[2], st[3]).outs) : st \in r.act}
Dead == /\ ph = "dying"
        /\ \E g \in {{}, InProgress} : ExitWith("killed", 9, [f \in g |-> "torn" \o ToString(x)] @@ disk)
(* an edit while the build is running *)
Race ==
  /\ ph = "build" /\ r.race /\ ~raced
  /\ \E f \in U!UserFiles(p.d) \cap DOMAIN p.v :
       LET q == [p EXCEPT !.v[f] = @ + 1] IN
       /\ p' = q /\ was' = q \* what an edit during a run replaced is not put back (with its old time)
       /\ OnWrite(f, "v" \o ToString(q.v[f]))
       /\ UNCHANGED <<rec, L, flag, ph, x, moves, faults>> /\ raced' = TRUE

Builder(n) ==
  \/ PchCheck(n) \/ ObjCheck(n) \/ LinkCheck(n) \/ End(n) \/ IdsCheck(n) \/ IdsEnd(n)
  \/ \E ok \in BOOLEAN : PchEnd(n, ok) \/ LinkEnd(n, ok)
  \/ \E s \in L[n].todo : ObjStart(n, s) \/ IdStart(n, s)
  \/ \E s \in L[n].run, ok \in BOOLEAN : (B(d, n).kind = "target" /\ ObjEnd(n, s, ok)) \/ (B(d, n).kind # "target" /\ s[2] > 0 /\ IdEnd(n, s, ok))
  \/ \E s \in L[n].run : B(d, n).kind # "target" /\ IdNext(n, s)
Rest == ph = "idle" /\ r.runs = MaxRuns /\ UNCHANGED vars
Next ==
  \/ Rest \/ Move \/ Back \/ (\E race \in BOOLEAN : Begin(race)) \/ Registered
  \/ \E n \in DOMAIN L : Builder(n)
  \/ Post \/ ExitOk \/ ExitBad \/ Die \/ Dead \/ Race
Spec == Init /\ [][Next]_vars

(* with deadlock checking on: a run never gets stuck *)
Good == bad = {}

(* ------------------------------------------------------------- projects --- *)
PA == [d |-> [U!D0 EXCEPT
         !.builders = <<[U!G0 EXCEPT !.name = "g", !.ids = <<U!GenId("i1", <<"gin1.txt">>, <<"build/out/g1.h">>, "B0")>>],
                        [U!T0 EXCEPT !.name = "l", !.cls = "gcc", !.type = "static", !.src = <<"lib/l1.c">>, !.hdr = <<"build/out/g1.h">>],
                        [U!T0 EXCEPT !.name = "a", !.cls = "gcc", !.src = <<"src/a.c">>, !.pch = <<"inc/p.h">>, !.libs = <<"l">>]>>,
         !.deps = <<<<"l", "g">>, <<"a", "l">>>>],
       v |-> [f \in {"gin1.txt", "lib/l1.c", "src/a.c", "inc/p.h", "src/n.cpp", "inc/n.h"} |-> 0]]
PB == [d |-> [U!D0 EXCEPT
         !.builders = <<[U!T0 EXCEPT !.name = "a", !.src = <<"src/a.c", "src/b.cpp">>, !.pch = <<"inc/p.h">>, !.hdr = <<"inc/h.h">>]>>],
       v |-> [f \in {"src/a.c", "src/b.cpp", "inc/p.h", "inc/h.h", "src/n.c", "src/n.cpp", "src/n.S", "inc/n.h", "n.txt"} |-> 0]]
PC == [d |-> [U!D0 EXCEPT
         !.builders = <<[U!G0 EXCEPT !.name = "g", !.ids = <<U!GenId("i1", <<"gin1.txt">>, <<"build/out/g1.h">>, "B0"),
                                                             U!GenId("i2", <<"gin1.txt", "gin2.txt">>, <<"build/out/g2.h">>, "")>>],
                        [U!F0 EXCEPT !.name = "f", !.in = <<"build/out/g1.h">>, !.out = <<"build/out/f1.txt", "build/out/f2.txt">>,
                           !.cmds = <<[in |-> "build/out/g1.h", out |-> "build/out/f1.txt", x |-> "-z0"],
                                      [in |-> "build/out/g1.h", out |-> "build/out/f2.txt", x |-> "-z0"]>>]>>,
         !.deps = <<<<"f", "g">>>>],
       v |-> [f \in {"gin1.txt", "gin2.txt", "gin3.txt", "fin2.txt"} |-> 0]]
Edits(q) == U!EditChanges(q)
All(q) == U!Changes(q)
Pick(q) == U!EditChanges(q) \cup U!ShapeChanges(q) \cup U!GenChanges(q) \cup U!FileGenChanges(q)
           \cup {c \in U!TargetChanges(q) : c[1] \in {"a.src add src/n.cpp", "a.src drop 1", "a.pch drop 1", "a.hdr drop 1", "a.hdr add inc/n.h", "a.libs drop 1",
                                                       "a.lnk add -flnk1", "a.com add -fcom1", "a.pchc add -fpchc1", "l.src add src/n.cpp"}}
Crash == {"crash"}
Fail == {"fail"}
RaceOnly == {"race"}
AllFaults == {"crash", "fail", "race"}
None == {}
FKeep == {"keeprecord"}
FHash == {"hashlate"}
FIdStop == {"idstop"}
FIdLate == {"idlate"}
FType == {"type"}
FPchGone == {"pchgone"}
FPchLang == {"pchlang"}
FNoStop == {"nostop"}
FNoEdges == {"noedges"}
FStoreAll == {"storeall"}
FAllSources == {"allsources"}
FIdFailed == {"idfailed"}
FArchive == {"archive"}
FAlways == {"alwayslink"}
=============================================================================
