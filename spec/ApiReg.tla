------------------------------- MODULE ApiReg -------------------------------
(***************************************************************************)
(* Registration: which builders, dependencies and tests a project accepts,  *)
(* and what a run of an accepted registration carries out.                  *)
(*                                                                          *)
(* A builder name starts with its kind (t target, g custom generator,       *)
(* f file generator); "t1@2" is the target t1 of another toolchain; a       *)
(* trailing ' is a second object with the identity of the first.            *)
(* A history ends with the first rejected call, or with a run.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Nodes,     \* the builders of the project
          Twins,     \* additional objects with the identity of a builder
          MaxDeps,   \* bound on the number of dependencies
          Early,     \* may dependencies come before all builders are there?
          Late       \* dependencies there before a history may end (0: no restriction)

VARIABLES reg, deps, tests, hist, done
vars == <<reg, deps, tests, hist, done>>

IsTwin(n) == n \in Twins
Key(n) == IF IsTwin(n) THEN SubSeq(n, 1, Len(n) - 1) ELSE n
Kind(n) == SubSeq(n, 1, 1)
All == Nodes \cup Twins

DirectDeps(D, n) == {e[2] : e \in {x \in D : x[1] = n}}
RECURSIVE Reach(_, _)
Reach(D, S) == LET N == S \cup UNION {DirectDeps(D, n) : n \in S} IN IF N = S THEN S ELSE Reach(D, N)
DependsOn(D, a) == Reach(D, DirectDeps(D, a))      \* everything a depends on

Init == reg = {} /\ deps = {} /\ tests = {} /\ hist = <<>> /\ done = <<>>

Step(op, accepted) ==
  /\ accepted \/ Cardinality(deps) >= Late
  /\ hist' = Append(hist, op)
  /\ done' = IF accepted THEN done ELSE <<"rejected", op>>

Build(n) ==
  LET ok == Key(n) \notin reg
  IN /\ IsTwin(n) => ~ok     \* a second object only for a builder that is already there
     /\ Step([op |-> "build", b |-> n, want |-> TRUE], ok)
     /\ reg' = IF ok THEN reg \cup {n} ELSE reg
     /\ UNCHANGED <<deps, tests>>

Dep(a, b) ==
  LET ok == /\ Key(a) \in reg /\ Key(b) \in reg
            /\ Key(a) # Key(b)
            /\ <<Key(a), Key(b)>> \notin deps
            /\ Key(a) \notin DependsOn(deps, Key(b))
  IN /\ Cardinality(deps) < MaxDeps \/ ~ok
     /\ (Early \/ ~ok) \/ reg = Nodes
     /\ Step([op |-> "dep", a |-> a, b |-> b, want |-> TRUE], ok)
     /\ deps' = IF ok THEN deps \cup {<<Key(a), Key(b)>>} ELSE deps
     /\ UNCHANGED <<reg, tests>>

Test(n) ==
  LET ok == Key(n) \in reg /\ Key(n) \notin tests
  IN /\ Kind(n) = "t" /\ (IsTwin(n) => ~ok)
     /\ Step([op |-> "test", b |-> n, want |-> TRUE], ok)
     /\ tests' = IF ok THEN tests \cup {Key(n)} ELSE tests
     /\ UNCHANGED <<reg, deps>>

(* what a run carries out: the commands of every builder and test, once,     *)
(* dependencies first, tests last                                            *)
Steps(n) == IF Kind(n) = "t" THEN <<n, n>> ELSE <<n>>
Post == "post"
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Ran == Flat([k \in 1..Cardinality(reg) |-> Steps(SetToSeq(reg)[k])]) \o <<Post>>
       \o [k \in 1..Cardinality(tests) |-> "test:" \o SetToSeq(tests)[k]]
Before == {<<a, b>> \in reg \X reg : b \in DependsOn(deps, a)}
          \cup {<<Post, a>> : a \in reg} \cup {<<"test:" \o t, Post>> : t \in tests}
RunOp == [op |-> "run", want |-> [ran |-> [bag |-> Ran], before |-> [sup |-> SetToSeq(Before)]]]
Run == reg # {} /\ Cardinality(deps) >= Late /\ hist' = Append(hist, RunOp) /\ done' = <<"run">> /\ UNCHANGED <<reg, deps, tests>>

(* a call that is switched off changes nothing, whatever it asks for *)
OffOps == {[op |-> "build", b |-> n, on |-> FALSE, by |-> w, want |-> TRUE] : n \in All, w \in {"tc", "call"}}
          \cup {[op |-> "dep", a |-> a, b |-> b, on |-> FALSE, want |-> TRUE] : a \in All, b \in All}
          \cup {[op |-> "test", b |-> n, on |-> FALSE, part |-> p, want |-> TRUE] : n \in {x \in All : Kind(x) = "t"}, p \in BOOLEAN}
Off == /\ reg # {} /\ Cardinality(deps) >= Late
       /\ \E o \in OffOps : hist' = hist \o <<o, RunOp>> /\ done' = <<"off", o>>
       /\ UNCHANGED <<reg, deps, tests>>

Next == /\ done = <<>>
        /\ \/ \E n \in All : Build(n)
           \/ \E a, b \in All : Dep(a, b)
           \/ \E n \in All : Test(n)
           \/ Run
           \/ Off
Spec == Init /\ [][Next]_vars

View == <<reg, deps, tests, done>>
Acyclic == \A n \in reg : n \notin DependsOn(deps, n)
Scenario == [kind |-> "reg", steps |-> hist, end |-> IF done[1] = "rejected" THEN "rejected" ELSE "ok",
             lab |-> <<done[1] \o (IF Len(done) > 1 THEN " " \o done[2].op ELSE "")>>]
Printed == Acyclic /\ (done # <<>> => PrintT("SCEN " \o ToJson(Scenario)))

TwoNodes == {"t1", "g1"}
ThreeNodes == {"t1", "g1", "f1"}
FourNodes == {"t1", "t1@2", "g1", "f1"}
SixNodes == {"t1", "t2", "g1", "g2", "f1", "t1@2"}
OneTwin == {"t1'"}
TwoTwins == {"t1'", "g1'"}
NoTwins == {}
=============================================================================
