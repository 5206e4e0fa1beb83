------------------------------- MODULE ApiObj -------------------------------
(***************************************************************************)
(* Objects: every source of a target is compiled once, into an object of    *)
(* its own below the build directory of the target, wherever the source     *)
(* lies and however its path is spelled; two sources that would share an    *)
(* object are rejected.                                                     *)
(***************************************************************************)
EXTENDS Paths, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Given,     \* sources as the user spells them: <<absolute?, spelling>>
          Places,    \* where the target lives
          MaxSrc,
          MinSrc     \* fewer are not worth a scenario

VARIABLES pl, srcs, done
vars == <<pl, srcs, done>>

(* The project is $W/ws/proj, built in $W/out. A place gives the root of the     *)
(* target relative to the project, or absolute root and build directories.   *)
Place ==
  "." :> [env |-> "", at |-> <<"ws", "proj">>, build |-> "out"]
  @@ "in" :> [env |-> "in", at |-> <<"ws", "proj", "in">>, build |-> "out"]
  @@ "deep" :> [env |-> "in/deep", at |-> <<"ws", "proj", "in", "deep">>, build |-> "out"]
  @@ "dotted" :> [env |-> "in/./../in/", at |-> <<"ws", "proj", "in">>, build |-> "out"]
  @@ "aside" :> [env |-> "../else", at |-> <<"ws", "else">>, build |-> "out"]
  @@ "abs" :> [env |-> "", at |-> <<"ws", "else", "x y">>, build |-> "alt/b"]

Where(g) == IF g[1] THEN Normal(<<>>, Parts(g[2])) ELSE Normal(<<>>, Place[pl].at \o Parts(g[2]))
Rel(q) == LET r == RelParts(Place[pl].at, q) IN Join([k \in DOMAIN r |-> IF r[k] = ".." THEN "__" ELSE r[k]])
Obj(q) == Abs(Place[pl].build \o "/gcc/t/" \o Rel(q) \o ".o")
Srcs == {Where(srcs[k]) : k \in DOMAIN srcs}
Shared == \E p, q \in Srcs : p # q /\ Obj(p) = Obj(q)

Init == pl \in Places /\ srcs = <<>> /\ done = FALSE
Next == /\ ~done /\ UNCHANGED pl
        /\ \/ Len(srcs) < MaxSrc /\ ~Shared /\ done' = FALSE
              /\ \E g \in Given : /\ Where(g)[1] # ".."
                                  /\ g \notin {srcs[k] : k \in DOMAIN srcs}
                                  /\ srcs' = Append(srcs, g)
           \/ (Len(srcs) >= MinSrc \/ Shared) /\ done' = TRUE /\ UNCHANGED srcs
Spec == Init /\ [][Next]_vars
View == vars

Steps == [k \in DOMAIN srcs |-> IF srcs[k][1] THEN [op |-> "src", abs |-> TRUE, v |-> "$W/" \o srcs[k][2]]
                                ELSE [op |-> "src", abs |-> FALSE, v |-> srcs[k][2]]]
Files == SetToSeq({[path |-> Abs(Join(q)), as |-> "file"] : q \in Srcs})
Scenario ==
  [kind |-> "obj", root |-> "ws/proj", build |-> "out", place |-> pl, steps |-> Steps,
   make |-> Files, env |-> Place[pl].env,
   wants |-> << [objs |-> [bag |-> SetToSeq({<<Abs(Join(q)), Obj(q)>> : q \in Srcs})], twice |-> <<>>] >>,
   end |-> IF Shared THEN "rejected" ELSE "ok",
   lab |-> <<pl, IF Shared THEN "shared" ELSE IF Cardinality(Srcs) < Len(srcs) THEN "same" ELSE "apart">>]
AbsScenario == [absroot |-> Abs(Join(Place[pl].at)), absbuild |-> Abs(Place[pl].build)] @@ Scenario
(* objects lie below the directory of the target *)
Inside == \A q \in Srcs : \A k \in DOMAIN Parts(Rel(q)) : Parts(Rel(q))[k] # ".."
Printed == Inside /\ (done => PrintT("SCEN " \o ToJson(IF pl = "abs" THEN AbsScenario ELSE Scenario)))

AllPlaces == DOMAIN Place
Plain == {<<FALSE, f>> : f \in {"a.cpp", "a.c", "a.s", "d/a.cpp", "d/e/a.cpp", "../a.cpp", "../../a.cpp",
                                "../d/a.cpp", "__/a.cpp", "__/d/a.cpp", "_/a.cpp"}}
Spelled == {<<FALSE, f>> : f \in {"./a.cpp", "d/../a.cpp", "d//a.cpp", "d/./a.cpp", "d/e/../../a.cpp", "d/a.cpp"}}
           \cup {<<TRUE, f>> : f \in {"ws/proj/in/a.cpp", "ws/proj/a.cpp", "ws/else/a.cpp", "ws/proj/in/../a.cpp", "out/gen/a.cpp"}}
Odd == {<<FALSE, f>> : f \in {"..a.cpp", "a..b.cpp", "..d/a.cpp", "d../a.cpp", "d d/a b.cpp", "d.d/a.cpp", "a.b.cpp", ".a.cpp",
                              "__a.cpp", "d/../__/a.cpp", "../d d/a.cpp", "..__/a.cpp", "../..d/a.cpp"}}
Many == {<<FALSE, "m" \o ToString(k) \o "/s" \o ToString(j) \o "/a.cpp">> : k \in 1..6, j \in 1..3}
        \cup {<<FALSE, "x" \o ToString(k) \o ".c">> : k \in 1..6}
AllGiven == Plain \cup Spelled \cup Odd
=============================================================================
