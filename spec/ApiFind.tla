------------------------------ MODULE ApiFind ------------------------------
(***************************************************************************)
(* Finding a toolchain: exactly the search directories that hold all its    *)
(* executables (regular files, or links to them, of exactly these names),   *)
(* in the order searched: the given directories, then those of the          *)
(* variables. Verifying takes the first, asks the compiler in it for        *)
(* version and architecture and from then on uses the executables of that   *)
(* directory; if there is none, or the compiler cannot tell, it is          *)
(* rejected. The search plugin finds every entry of the          *)
(* directories of its variables whose whole name matches.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sets,      \* names of executable sets
          DirKinds,  \* what a directory may hold
          Searches,  \* shapes of searches
          Ids        \* families

VARIABLES xs, dk, how, id, say, hist, done
vars == <<xs, dk, how, id, say, hist, done>>

(* the five executables: assembler, C, C++ compiler, archiver, linker *)
Exes ==
  "gcc" :> <<"as", "gcc", "g++", "ar", "ld">>
  @@ "same" :> <<"cl", "cl", "cl", "lib", "link">>
  @@ "dotted" :> <<"llvm-as-14.0", "clang-14.0", "clang++-14.0", "ar.x", "ld.lld">>
  @@ "odd" :> <<"as", "cc.exe", "c++", "my ar", "ld">>
Used == {Exes[xs][k] : k \in 1..5}

(* what the directories d1 and d2 hold *)
E(n, as) == [n |-> n, as |-> as]
Holds(kind) ==
  CASE kind = "all" -> {E(n, "exe") : n \in Used} \cup {E("other", "exe")}
    [] kind = "plain" -> {E(n, "file") : n \in Used}
    [] kind = "links" -> {E(n, "link") : n \in Used}
    [] kind = "dangling" -> {E(n, IF n = Exes[xs][3] THEN "dangling" ELSE "exe") : n \in Used}
    [] kind = "folder" -> {E(n, IF n = Exes[xs][5] THEN "dir" ELSE "exe") : n \in Used}
    [] kind = "txt" -> {E(IF n = Exes[xs][2] THEN n \o ".txt" ELSE n, "exe") : n \in Used}
    [] kind = "prefix" -> {E(IF n = Exes[xs][1] THEN "x-" \o n ELSE n, "exe") : n \in Used}
    [] kind = "below" -> {E("bin/" \o n, "exe") : n \in Used}
    [] kind = "crowded" -> {E(n, "exe") : n \in Used} \cup {E("f" \o ToString(k), "file") : k \in 1..100}
    [] kind = "none" -> {}
    [] kind = "absent" -> {}
    [] kind = "file" -> {}
    [] kind \in {"no1", "no3", "no4"} ->
         LET k == CASE kind = "no1" -> 1 [] kind = "no3" -> 3 [] kind = "no4" -> 4
         IN {E(n, "exe") : n \in Used \ {Exes[xs][k]}}
Complete(kind) == kind \in {"all", "plain", "links", "crowded"}

Dir(d) == IF d = "d2" THEN "$W/d 2" ELSE "$W/" \o d
Make ==
  SetToSeq(UNION {
    (IF dk[d] = "absent" THEN {}
     ELSE IF dk[d] = "file" THEN {[path |-> Dir(d), as |-> "file"]}
     ELSE {[path |-> Dir(d), as |-> "dir"]})
    \cup {IF e.as = "link" THEN [path |-> Dir(d) \o "/" \o e.n, as |-> "link", to |-> "$W/real"]
          ELSE IF e.as = "dangling" THEN [path |-> Dir(d) \o "/" \o e.n, as |-> "link", to |-> "$W/nowhere"]
          ELSE [path |-> Dir(d) \o "/" \o e.n, as |-> e.as] : e \in Holds(dk[d])}
    : d \in {"d1", "d2"}} \cup {[path |-> "$W/real", as |-> "exe"], [path |-> "$W/loop", as |-> "link", to |-> "$W/loop"]})

(* which directories are searched, in which order *)
Search ==
  CASE how = "dirs" -> [dirs |-> <<"d1", "d2">>, vars |-> <<>>, env |-> [x \in {} |-> <<>>]]
    [] how = "rev" -> [dirs |-> <<"d2", "d1">>, vars |-> <<>>, env |-> [x \in {} |-> <<>>]]
    [] how = "var" -> [dirs |-> <<>>, vars |-> <<"VP_A">>, env |-> [VP_A |-> <<"d1", "d2">>]]
    [] how = "two" -> [dirs |-> <<>>, vars |-> <<"VP_B", "VP_A">>, env |-> [VP_A |-> <<"d1">>, VP_B |-> <<"d2">>]]
    [] how = "both" -> [dirs |-> <<"d2">>, vars |-> <<"VP_A">>, env |-> [VP_A |-> <<"d1">>]]
    [] how = "gaps" -> [dirs |-> <<>>, vars |-> <<"VP_A">>, env |-> [VP_A |-> <<"", "nowhere", "d2", "", "real", "loop", "d1", "">>]]
    [] how = "again" -> [dirs |-> <<"d1">>, vars |-> <<"VP_A">>, env |-> [VP_A |-> <<"d2", "d1">>]]
    [] how = "unset" -> [dirs |-> <<"d1">>, vars |-> <<"VP_A", "VP_NO">>, env |-> [VP_A |-> <<"d2">>]]
    [] how = "empty" -> [dirs |-> <<>>, vars |-> <<>>, env |-> [x \in {} |-> <<>>]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE (IF Head(q) = "" THEN "" ELSE Dir(Head(q))) \o (IF Len(q) = 1 THEN "" ELSE ":" \o Text(Tail(q)))
Order == Search.dirs \o Flat([k \in DOMAIN Search.vars |->
           IF Search.vars[k] \in DOMAIN Search.env THEN Search.env[Search.vars[k]] ELSE <<>>])
Unset == \E k \in DOMAIN Search.vars : Search.vars[k] \notin DOMAIN Search.env
FoundDirs == SelectSeq(Order, LAMBDA d : d \in {"d1", "d2"} /\ Complete(dk[d]))
Found == [k \in DOMAIN FoundDirs |-> Dir(FoundDirs[k])]

(* what the compiler answers: <<parts of the version, exit>>, ... *)
Says ==
  "plain" :> [v |-> <<"12.1">>, a |-> <<"arch">>, cv |-> 0, ca |-> 0]
  @@ "lines" :> [v |-> <<"12.1\n">>, a |-> <<"arch-x\r\n">>, cv |-> 0, ca |-> 0]
  @@ "parts" :> [v |-> <<"12", ".1", "\n">>, a |-> <<"ar", "ch\n">>, cv |-> 0, ca |-> 0]
  @@ "novers" :> [v |-> <<"12.1">>, a |-> <<"arch">>, cv |-> 1, ca |-> 0]
  @@ "noarch" :> [v |-> <<"12.1">>, a |-> <<"arch">>, cv |-> 0, ca |-> 2]
  @@ "silent" :> [v |-> <<>>, a |-> <<"arch">>, cv |-> 0, ca |-> 0]
  @@ "mute" :> [v |-> <<"12.1">>, a |-> <<>>, cv |-> 0, ca |-> 0]
Vers == "12.1"
Arch == IF say = "lines" THEN "arch-x" ELSE "arch"
Usable == say \in {"plain", "lines", "parts"}
Compilers == {Dir(d) \o "/" \o Exes[xs][3] : d \in {"d1", "d2"}}
Cmds == [c \in {x \o " -dumpversion" : x \in Compilers} |-> [out |-> Says[say].v, code |-> Says[say].cv]]
        @@ [c \in {x \o " -dumpmachine" : x \in Compilers} |-> [out |-> Says[say].a, code |-> Says[say].ca]]

FindOp(op) == [op |-> op, dirs |-> [k \in DOMAIN Search.dirs |-> Dir(Search.dirs[k])], vars |-> Search.vars]
X(p) == [k \in 1..5 |-> p \o Exes[xs][k]]
Init ==
  /\ xs \in Sets /\ dk \in [{"d1", "d2"} -> DirKinds] /\ how \in Searches /\ id \in Ids
  /\ say \in (IF id \in {"gcc", "mingw", "clang"} THEN DOMAIN Says ELSE IF id = "msvc" THEN {"plain", "novers", "noarch"} ELSE {"plain"})
  /\ hist = <<>> /\ done = "no"

Informs == CASE id \in {"gcc", "mingw", "clang"} -> Usable
             [] id = "msvc" -> say = "plain"
             [] id = "customcb" -> TRUE
             [] OTHER -> FALSE
Info(d) ==
  CASE id = "msvc" -> [path |-> d, version |-> "17.1", arch |-> "x86_x64"]
    [] id = "customcb" -> [path |-> d, version |-> d \o "/" \o Exes[xs][2], arch |-> d \o "/" \o Exes[xs][5]]
    [] OTHER -> [path |-> d, version |-> Vers, arch |-> Arch]

Find == /\ hist = <<>>
        /\ hist' = <<[op |-> "exes", want |-> X("")], FindOp("find") @@ [want |-> Found], [op |-> "exes", want |-> X("")]>>
        /\ done' = IF Unset THEN "rejected" ELSE "no"
Verify == /\ hist # <<>> /\ Len(hist) = 3
          /\ LET ok == Found # <<>> /\ Informs
             IN /\ hist' = Append(hist, FindOp("verify") @@ [want |-> IF ok THEN Info(Found[1]) ELSE [path |-> ""]])
                           \o (IF ok THEN <<[op |-> "exes", want |-> X(Found[1] \o "/")]>> ELSE <<>>)
                /\ done' = IF ok THEN "end" ELSE "rejected"
(* the search plugin: whole names, whatever the entry is *)
Patterns == {"gcc", "g\\+\\+", "gcc.*", ".*", "as|ld", "c"}
Matches(p, n) ==
  CASE p = "gcc" -> n = "gcc" [] p = "g\\+\\+" -> n = "g++" [] p = ".*" -> TRUE [] p = "as|ld" -> n \in {"as", "ld"}
    [] p = "gcc.*" -> Len(n) >= 3 /\ SubSeq(n, 1, 3) = "gcc" [] p = "c" -> n = "c"
Top(n) == IF Len(n) > 4 /\ SubSeq(n, 1, 4) = "bin/" THEN "bin" ELSE n
Hits(p) == Flat([k \in DOMAIN Order |->
  IF Order[k] \notin {"d1", "d2"} \/ k <= Len(Search.dirs) THEN <<>>
  ELSE SetToSeq({Dir(Order[k]) \o "/" \o n : n \in {m \in {Top(e.n) : e \in Holds(dk[Order[k]])} : Matches(p, m)}})])
Plug(p) == /\ hist = <<>> /\ id = "gcc" /\ say = "plain"
           /\ hist' = <<[op |-> "search", regex |-> p, vars |-> Search.vars, want |-> <<Hits(p) # <<>>, [bag |-> Hits(p)]>>]>>
           /\ done' = "end"
Next == done = "no" /\ (Find \/ Verify \/ \E p \in Patterns : Plug(p)) /\ UNCHANGED <<xs, dk, how, id, say>>
Spec == Init /\ [][Next]_vars
View == vars

Env == [v \in DOMAIN Search.env |-> Text(Search.env[v])] @@
       (IF id = "msvc" THEN (IF say = "novers" THEN [VSCMD_ARG_HOST_ARCH |-> "x86", VSCMD_ARG_TGT_ARCH |-> "x64"]
                             ELSE IF say = "noarch" THEN [VSCMD_VER |-> "17.1", VSCMD_ARG_HOST_ARCH |-> "x86"]
                             ELSE [VSCMD_VER |-> "17.1", VSCMD_ARG_HOST_ARCH |-> "x86", VSCMD_ARG_TGT_ARCH |-> "x64"])
        ELSE [x \in {} |-> ""])
Steps == IF Unset /\ done = "rejected" THEN SubSeq(hist, 1, 2) ELSE hist
Scenario ==
  [kind |-> "find", make |-> Make, env |-> Env, unset |-> <<"VP_NO">>,
   x |-> [as |-> Exes[xs][1], cc |-> Exes[xs][2], cxx |-> Exes[xs][3], ar |-> Exes[xs][4], ld |-> Exes[xs][5]],
   id_ |-> id, cmds |-> Cmds, steps |-> Steps,
   end |-> IF done = "rejected" THEN "rejected" ELSE "ok",
   lab |-> <<xs \o " " \o how, dk["d1"], id \o " " \o say \o " " \o done>>]
Printed == done # "no" => PrintT("SCEN " \o ToJson(Scenario))

AllKinds == {"all", "crowded", "plain", "links", "dangling", "folder", "txt", "prefix", "below", "none", "absent", "file", "no1", "no3", "no4"}
FewKinds == {"all", "links", "txt", "no3", "absent"}
AllSets == DOMAIN Exes
GccSet == {"gcc"}
AllSearches == {"dirs", "rev", "var", "two", "both", "gaps", "again", "unset", "empty"}
FewSearches == {"dirs", "gaps"}
GccId == {"gcc"}
AllIds == {"gcc", "mingw", "clang", "msvc", "custom", "customcb"}
=============================================================================
