------------------------------ MODULE BuildGen ------------------------------
(***************************************************************************)
(* Histories of a project: what the user changes between runs, what goes    *)
(* wrong during a run. A *shape* fixes the kinds of successive actions; TLC *)
(* enumerates every history of every shape (or walks randomly) and prints   *)
(* each as a scenario for the real library.                                 *)
(***************************************************************************)
EXTENDS BuildCore, SequencesExt, Json, IOUtils

U == INSTANCE Universe

CONSTANTS Projects, Shapes, FailModes, CrashModes, CorruptModes, Emit

VARIABLES
  name,  \* which project
  p,     \* the project now
  last,  \* the project as of the last successful run (or <<>>)
  prev,  \* project before the last change
  shape, \* what is still to come
  h,     \* steps so far
  lab    \* labels so far
vars == <<name, p, last, prev, shape, h, lab>>

ProjectOf(n) == CASE n = "mixed" -> U!Mixed [] n = "tiny" -> U!Tiny [] n = "gcc" -> U!Gcc
                  [] n = "rich" -> U!Rich [] n = "conly" -> U!COnly [] n = "net" -> U!Net [] n = "paths" -> U!Paths
                  [] n = "msvc" -> U!MsvcP [] n = "mingw" -> U!MingwP [] n = "gengcc" -> U!GenGcc
                  [] n = "genmsvc" -> U!GenMsvc [] n = "genmingw" -> U!GenMingw [] n = "clang" -> U!BaseClang
                  [] n = "twotc" -> U!TwoTc [] n = "tmpl" -> U!TmplP [] n = "wide" -> U!Wide [] n = "switched" -> U!Switched
                  [] n = "gens" -> U!GensP [] n = "tested" -> U!Tested [] n = "fan" -> U!Fan [] n = "big" -> U!Big [] n = "many" -> U!Many [] n = "own" -> U!OwnP

NoPlan == [faults |-> [x \in {} |-> ""]]
RunStep(q, plan) == [op |-> "run", desc |-> q.d, plan |-> plan]
Writes(q, q2) ==
  LET S == {f \in DOMAIN q2.v : q2.v[f] # q.v[f]}
  IN [k \in 1..Cardinality(S) |-> LET f == SetToSeq(S)[k] IN [op |-> "write", f |-> f, v |-> q2.v[f]]]

StepName(st) == st[1] \o ":" \o st[2] \o (IF st[3] = "" THEN "" ELSE ":" \o st[3])
Todo == IF last = <<>> THEN Steps(p.d) ELSE Needed(last.d, last.v, p.d, p.v)
RecordPath(d, b) == IF b.kind = "target" THEN OutDir(d, b) \o RealName(b) \o ".bin"
                    ELSE BuildBase(d, b) \o "/" \o b.name \o "/" \o b.name \o ".json"
(* files the library itself writes for builder b *)
Written(d, b) == {RecordPath(d, b)} \cup (IF b.kind = "tmpl" THEN {m.out : m \in Range(b.tmpls)} ELSE {})

Init ==
  /\ name \in Projects
  /\ p = ProjectOf(name) /\ last = <<>> /\ prev = <<>>
  /\ shape \in Shapes /\ h = <<>> /\ lab = <<name>>

Did(steps, l) == h' = h \o steps /\ lab' = Append(lab, l) /\ shape' = Tail(shape) /\ UNCHANGED name
Is(k) == shape # <<>> /\ Head(shape) = k

Run == Is("run") /\ last' = p /\ Did(<<RunStep(p, NoPlan)>>, "run") /\ UNCHANGED <<p, prev>>
Goto(q, l) == p' = q /\ prev' = p /\ Did(Writes(p, q), l) /\ UNCHANGED last
Change == Is("change") /\ \E c \in U!Changes(p) : Goto(c[2], c[1])
Edit == Is("edit") /\ \E c \in U!EditChanges(p) : Goto(c[2], c[1])
(* many changes one after the other, each with a run, a run with nothing     *)
(* changed, and put back; every change of the project is in one of the sweeps *)
SweepLen == 9
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Sweep ==
  /\ Is("sweep")
  /\ \E all \in {SetToSeq(U!Changes(p))} :
     LET n == (Len(all) + SweepLen - 1) \div SweepLen
         one(c) == Writes(p, c[2]) \o <<RunStep(c[2], NoPlan), RunStep(c[2], NoPlan)>> \o Writes(c[2], p) \o <<RunStep(p, NoPlan)>>
     IN \E k \in 0..(n - 1) :
        \E mine \in {[j \in 1..((Len(all) - k + n - 1) \div n) |-> all[k + 1 + (j - 1) * n]]} :
          /\ h' = h \o Concat(TLCEval([j \in DOMAIN mine |-> one(mine[j])]))
          /\ lab' = lab \o [j \in DOMAIN mine |-> mine[j][1]]
  /\ shape' = Tail(shape) /\ last' = p
  /\ UNCHANGED <<name, p, prev>>
Undo == Is("undo") /\ prev # <<>> /\ Goto(prev, "undo")

Faulty(k, modes) ==
  /\ Is(k)
  /\ \E todo \in {Todo} : \E st \in todo : \E m \in modes :
       /\ m \in {"throw", "throwint"} => st[1] = "gen"
       /\ st[1] # "tmpl"
       /\ Did(<<RunStep(p, [faults |-> (StepName(st) :> m)])>>, m \o " " \o StepName(st))
  /\ UNCHANGED <<p, prev, last>>
Fail == Faulty("fail", FailModes)
Crash == Faulty("crash", CrashModes)
(* a test fails; nothing that was built is lost *)
TFail ==
  /\ Is("tfail")
  /\ \E st \in Tests(p.d) : \E m \in {"fail"} :
       Did(<<RunStep(p, [faults |-> (StepName(st) :> m)])>>, m \o " " \o StepName(st))
  /\ last' = p /\ UNCHANGED <<p, prev>>

(* the record of a builder is damaged between runs, or torn while written   *)
Corrupt ==
  /\ Is("corrupt")
  /\ \E b \in Builders(p.d) : \E m \in CorruptModes :
       Did(<<[op |-> "corrupt", path |-> RecordPath(p.d, b), b |-> b.name, how |-> m[1], num |-> m[2]]>>,
           "corrupt " \o b.name \o " " \o m[1] \o ToString(m[2]))
  /\ UNCHANGED <<p, prev, last>>
Torn ==
  /\ Is("torn")
  /\ \E todo \in {Todo} : \E n \in {st[2] : st \in todo} : \E m \in {<<"crash_open", 0>>, <<"crash_write", 0>>, <<"crash_write", 60>>} :
       \E f \in Written(p.d, B(p.d, n)) :
       Did(<<RunStep(p, [io |-> [path |-> f, mode |-> m[1], bytes |-> m[2], b |-> n]])>>,
              m[1] \o ToString(m[2]) \o " " \o n \o " " \o f)
  /\ UNCHANGED <<p, prev, last>>
NoSpace ==
  /\ Is("nospace")
  /\ \E todo \in {Todo} : \E n \in {st[2] : st \in todo} : \E f \in Written(p.d, B(p.d, n)) :
       Did(<<RunStep(p, [io |-> [path |-> f, mode |-> "enospc", bytes |-> 0, b |-> n]])>>, "enospc " \o n \o " " \o f)
  /\ UNCHANGED <<p, prev, last>>
(* a file is edited while one of the steps is being carried out             *)
Race ==
  /\ Is("race")
  /\ \E todo \in {Todo} : \E st \in {x \in todo : x[1] # "tmpl"} : \E f \in U!UserFiles(p.d) \cap DOMAIN p.v :
       /\ LET q == [p EXCEPT !.v[f] = @ + 1]
          IN /\ p' = q /\ prev' = p
             /\ Did(<<RunStep(p, [race |-> (StepName(st) :> (f :> q.v[f]))])>>, "race " \o StepName(st) \o " " \o f)
  /\ UNCHANGED last
(* a step takes long *)
Hold ==
  /\ Is("hold")
  /\ \E todo \in {Todo} : \E st \in {x \in todo : x[1] # "tmpl"} :
       Did(<<RunStep(p, [hold |-> StepName(st), holdus |-> 15000])>>, "hold " \o StepName(st))
  /\ last' = p /\ UNCHANGED <<p, prev>>
(* files the user forgot / removed *)
Missing ==
  /\ Is("missing")
  /\ \E f \in U!UserFiles(p.d) \cap DOMAIN p.v :
       Did(<<[op |-> "rm", f |-> f], RunStep(p, NoPlan), [op |-> "write", f |-> f, v |-> p.v[f]]>>, "missing " \o f)
  /\ UNCHANGED <<p, prev, last>>

Next == Run \/ Change \/ Sweep \/ Edit \/ Undo \/ Fail \/ TFail \/ Crash \/ Corrupt \/ Torn \/ NoSpace \/ Race \/ Hold \/ Missing

Scenario == [lab |-> lab, files |-> ProjectOf(name).v, steps |-> h]
Spec == Init /\ [][Next]_vars
(* printed once per completed history *)
Printed == shape = <<>> => PrintT("SCEN " \o ToJson(Scenario))
=============================================================================
