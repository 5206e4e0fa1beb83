------------------------------ MODULE ApiInfo ------------------------------
(***************************************************************************)
(* Target information: the lists of sources, headers, directories,          *)
(* libraries, flags and dependencies of a target. Paths are taken from the  *)
(* root of the target; lists keep the order in which things were added,     *)
(* after the flags of the toolchain; Copy replaces and Insert extends       *)
(* exactly the selected lists; a file whose extension the toolchain does    *)
(* not accept is rejected; globbing adds exactly the acceptable files of a  *)
(* directory.                                                               *)
(***************************************************************************)
EXTENDS Paths, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Fills,    \* what the two infos hold at first: set of <<fill of p, fill of q>>
          Configs,  \* accepted extensions
          QAt,      \* where q lives
          MaxOps, Late

VARIABLES cfg, at, inf, glob, dead, hist, ops, done
vars == <<cfg, at, inf, glob, dead, hist, ops, done>>

Fields == <<"src", "hdr", "pch", "libs", "inc", "ldir", "xlibs", "pre", "com", "pchc", "pcho", "asm", "c", "cpp", "lnk", "cdep", "ldep">>
FieldSet == {Fields[k] : k \in DOMAIN Fields}
FlagFields == {"pre", "com", "pchc", "pcho", "asm", "c", "cpp", "lnk"}
PathFields == {"src", "hdr", "pch", "inc", "ldir", "cdep", "ldep"}
TcFlags == [f \in FlagFields |-> IF f = "asm" THEN <<>> ELSE <<"-tc-" \o f, "-tc2">>]

Config ==
  "std" :> [c |-> {".c"}, cpp |-> {".cpp", ".cxx", ".cc"}, asm |-> {".s", ".S", ".asm"}, hdr |-> {".h", ".hpp"}]
  @@ "own" :> [c |-> {".c", ".x"}, cpp |-> {".CPP"}, asm |-> {}, hdr |-> {".hh", ".inc"}]

(* the extension of a path: from the last dot of its last part, unless that starts the part *)
Last1(q) == q[Len(q)]
Dots(s) == {k \in 1..Len(s) : SubSeq(s, k, k) = "."}
ExtOf(p) ==
  LET s == IF Parts(p) = <<>> THEN "" ELSE Last1(Parts(p)) IN
  IF Dots(s) \subseteq {1} THEN ""
  ELSE LET k == CHOOSE k \in Dots(s) : \A j \in Dots(s) : j <= k IN SubSeq(s, k, Len(s))
KindOf(p) ==
  LET e == ExtOf(p) c == Config[cfg] IN
  IF e = "" THEN "none" ELSE IF e \in c.c THEN "c" ELSE IF e \in c.cpp THEN "cpp" ELSE IF e \in c.asm THEN "asm"
  ELSE IF e \in c.hdr THEN "hdr" ELSE "none"
IsSource(p) == KindOf(p) \in {"c", "cpp", "asm"}
IsHeader(p) == KindOf(p) = "hdr"
Accepts(f, v) == CASE f = "src" -> IsSource(v) [] f \in {"hdr", "pch"} -> IsHeader(v) [] OTHER -> TRUE

Root(i) == IF i = "p" THEN <<"ws", "proj">>
           ELSE CASE at = "." -> <<"ws", "proj">> [] at = "in" -> <<"ws", "proj", "in">> [] at = "abs" -> <<"ws", "x y">>
Resolve(i, v, to, abs) ==
  IF abs THEN Abs(Join(Normal(<<>>, Parts(v))))
  ELSE Abs(Join(Normal(<<>>, Root(i) \o Parts(to) \o Parts(v))))
Value(i, f, v, to, abs) ==
  IF f \in PathFields THEN Resolve(i, v, to, abs)
  ELSE IF f = "libs" THEN Abs("out/tc/" \o v \o "/" \o v)
  ELSE v

NewOp(i) ==
  [op |-> "new", i |-> i, target |-> i = "q", want |-> TRUE] @@
  (IF i = "q" /\ at = "abs" THEN [absroot |-> Abs("ws/x y"), absbuild |-> Abs("alt")]
   ELSE IF i = "q" /\ at = "in" THEN [env |-> "in"] ELSE [env |-> ""])
AddOp(i, f, v, to, abs) ==
  [op |-> "add", i |-> i, f |-> f, v |-> IF abs THEN "$W/" \o v ELSE v, abs |-> abs, want |-> TRUE]
  @@ (IF to = "" THEN [x \in {} |-> ""] ELSE [to |-> to])

Fill == \* what an info holds at first
  "none" :> [f \in FieldSet |-> <<>>]
  @@ "one" :> [f \in FieldSet |-> CASE f = "src" -> <<"o.c">> [] f \in {"hdr", "pch"} -> <<IF cfg = "std" THEN "o.h" ELSE "o.hh">>
                                    [] f = "libs" -> <<"lo">> [] OTHER -> <<"o-" \o f>>]
  @@ "two" :> [f \in FieldSet |-> CASE f = "src" -> <<"t1.c", "d/t2.c">>
                                    [] f \in {"hdr", "pch"} -> IF cfg = "std" THEN <<"t1.h", "t2.h">> ELSE <<"t1.hh", "t2.inc">>
                                    [] f = "libs" -> <<"lt", "lu">> [] OTHER -> <<"t2-" \o f, "t1-" \o f>>]
FillOf(fl, i) == LET F == Fill[IF i = "p" THEN fl[1] ELSE fl[2]]
                 IN [f \in FieldSet |-> [k \in DOMAIN F[f] |-> Value(i, f, F[f][k], "", FALSE)]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
FillOps(fl, i) == LET F == Fill[IF i = "p" THEN fl[1] ELSE fl[2]]
                  IN Flat([k \in DOMAIN Fields |-> [j \in DOMAIN F[Fields[k]] |-> AddOp(i, Fields[k], F[Fields[k]][j], "", FALSE)]])

Init ==
  /\ cfg \in Configs /\ at \in QAt
  /\ \E fl \in Fills :
       /\ inf = [i \in {"p", "q"} |-> [f \in FieldSet |-> (IF f \in FlagFields THEN TcFlags[f] ELSE <<>>) \o FillOf(fl, i)[f]]]
       /\ hist = <<NewOp("p"), NewOp("q")>> \o FillOps(fl, "p") \o FillOps(fl, "q")
  /\ glob = {} /\ dead = {} /\ ops = <<>> /\ done = "no"

Live == {"p", "q"} \ dead
Note(o, lab) == hist' = Append(hist, o) /\ ops' = Append(ops, lab)
Same == UNCHANGED <<cfg, at>>

GivenPaths == {<<"n.c", "", FALSE>>, <<"n.cpp", "d", FALSE>>, <<"d/../n.h", "", FALSE>>, <<"a b/n.hpp", "", FALSE>>, <<"n.b.S", "../e", FALSE>>,
               <<"ws/else/n.h", "", TRUE>>, <<"ws/./else/d/../n.cc", "", TRUE>>, <<"n.x", "", FALSE>>, <<"n.inc", "", FALSE>>, <<"n.CPP", "", FALSE>>,
               <<"n.C", "", FALSE>>, <<".c", "", FALSE>>, <<"d.c/n", "", FALSE>>, <<"n", "", FALSE>>, <<"n.", "", FALSE>>, <<"d/.h", "", FALSE>>, <<"n.h.txt", "", FALSE>>}
GivenWords == {"w", "w=\"a b\"", "t1-c"}
Add(i, f, g) ==
  LET ok == Accepts(f, g[1]) IN
  /\ f \in {"inc", "ldir", "cdep", "ldep"} => g[2] = ""
  /\ Note(AddOp(i, f, g[1], g[2], g[3]), "add " \o f \o (IF ok THEN "" ELSE " rejected"))
  /\ inf' = IF ok THEN [inf EXCEPT ![i][f] = Append(@, Value(i, f, g[1], g[2], g[3]))] ELSE inf
  /\ done' = IF ok THEN "no" ELSE "rejected"
  /\ ok \/ Len(ops) >= Late
  /\ UNCHANGED <<glob, dead>>

(* files of the directory that is globbed *)
Names == {"g1.c", "g2.cpp", "g3.h", "g4.hpp", "g5.txt", "g6", ".c", "g7.S", "g8.CPP", "g9.hh", "ga.inc", "gb.x", "gc.c.orig"}
GlobDirs == {"", "gd", "g e"}
GlobFiles == {[path |-> Abs(Join(Normal(<<>>, <<"ws", r>> \o Parts(m) \o Parts(d) \o <<n>>))), as |-> "file"] :
                r \in {"proj", "x y"}, m \in {"", "in"}, d \in {"gd", "g e", "gd/sub"}, n \in Names}
             \cup {[path |-> Abs(Join(<<"ws", r, m, n>>)), as |-> "file"] : r \in {"proj"}, m \in {"in"}, n \in {"r1.c", "r2.h"}}
             \cup {[path |-> Abs("ws/proj/r3.c"), as |-> "file"], [path |-> Abs("ws/x y/r4.h"), as |-> "file"]}
InDir(dir) == \* the files of a directory, as paths
  LET pre == Abs(Join(dir)) \o "/" IN
  {p \in {x.path : x \in GlobFiles} : /\ Len(p) > Len(pre) /\ SubSeq(p, 1, Len(pre)) = pre
                                       /\ Slashes(SubSeq(p, Len(pre) + 1, Len(p))) = {}}
Glob(i, f, d, abs) ==
  LET dir == Root(i) \o Parts(d)
      hit == {p \in InDir(dir) : IF f = "src" THEN IsSource(p) ELSE IsHeader(p)} IN
  /\ i \notin glob
  /\ Note([op |-> "glob", i |-> i, f |-> f, v |-> IF abs THEN Abs(Join(dir)) ELSE d, abs |-> abs, want |-> TRUE], "glob " \o f)
  /\ inf' = [inf EXCEPT ![i][f] = @ \o SetToSeq(hit)]
  /\ glob' = glob \cup {i} /\ done' = "no" /\ UNCHANGED dead
IncGlob(i, d) == \* an include directory with its headers
  LET dir == Root(i) \o Parts(d) IN
  /\ i \notin glob /\ d # ""
  /\ Note([op |-> "add", i |-> i, f |-> "inc", v |-> d, glob |-> TRUE, want |-> TRUE], "include and glob")
  /\ inf' = [inf EXCEPT ![i]["hdr"] = @ \o SetToSeq({p \in InDir(dir) : IsHeader(p)}), ![i]["inc"] = Append(@, Abs(Join(dir)))]
  /\ glob' = glob \cup {i} /\ done' = "no" /\ UNCHANGED dead

Without(f) == SelectSeq(Fields, LAMBDA x : x # f)
OptLists == {<<f>> : f \in FieldSet} \cup {Without(f) : f \in FieldSet} \cup {Fields, <<>>, Reverse(Fields)}
            \cup {<<Fields[k], Fields[(k % Len(Fields)) + 1]>> : k \in DOMAIN Fields}
            \cup {<<"src", "inc", "lnk">>, <<"c", "cpp", "asm", "com">>, <<"src", "src">>}
Has(o, f) == \E k \in DOMAIN o : o[k] = f
Count(o, f) == Cardinality({k \in DOMAIN o : o[k] = f})
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Sync(how, i, j, o, mv) ==
  /\ i # j
  /\ mv => \A f \in FieldSet : Count(o, f) < 2
  /\ Note([op |-> how, i |-> i, from |-> j, opts |-> o, move |-> mv, want |-> TRUE],
          how \o (IF mv THEN " move " ELSE " ") \o (IF Len(o) = 1 THEN o[1] ELSE ToString(Len(o))))
  /\ inf' = [inf EXCEPT ![i] = [f \in FieldSet |->
                IF ~Has(o, f) THEN @[f] ELSE IF how = "copy" THEN inf[j][f] ELSE @[f] \o Times(inf[j][f], Count(o, f))]]
  /\ dead' = IF mv THEN dead \cup {j} ELSE dead
  /\ glob' = IF j \in glob THEN glob \cup {i} ELSE glob
  /\ done' = "no"

Shown(i) == IF i \in glob THEN [f \in FieldSet |-> [bag |-> inf[i][f]]] ELSE inf[i]
Ext(p) == hist' = Append(hist, [op |-> "ext", v |-> p, want |-> <<KindOf(p), IsSource(p), IsHeader(p)>>])
ShowAll == LET L == SetToSeq(Live) IN [k \in DOMAIN L |-> [op |-> "show", i |-> L[k], want |-> Shown(L[k])]]
Dirs == [op |-> "dirs", i |-> "q", want |-> <<Abs(Join(Root("q"))), IF at = "abs" THEN Abs("alt/tc/q") ELSE Abs("out/tc/q")>>]
ExtOps == LET L == SetToSeq({g[1] : g \in GivenPaths})
          IN [k \in DOMAIN L |-> [op |-> "ext", v |-> L[k], want |-> <<KindOf(L[k]), IsSource(L[k]), IsHeader(L[k])>>]]
End ==
  /\ Len(ops) >= Late
  /\ hist' = hist \o ShowAll \o <<Dirs>> \o (IF ops = <<>> THEN ExtOps ELSE <<>>) /\ done' = "end"
  /\ UNCHANGED <<inf, glob, dead, ops>>

Next ==
  /\ done = "no" /\ Same
  /\ \/ /\ Len(ops) < MaxOps
        /\ \/ \E i \in Live :
              \/ \E f \in PathFields, g \in GivenPaths : Add(i, f, g)
              \/ \E f \in FieldSet \ PathFields, w \in GivenWords : Add(i, f, <<IF f = "libs" THEN "lw" ELSE w, "", FALSE>>)
              \/ \E f \in {"src", "hdr"}, d \in GlobDirs, abs \in BOOLEAN : Glob(i, f, d, abs)
              \/ \E d \in GlobDirs : IncGlob(i, d)
           \/ \E i, j \in Live, o \in OptLists, how \in {"copy", "insert"}, mv \in BOOLEAN : Sync(how, i, j, o, mv)
     \/ End
Spec == Init /\ [][Next]_vars
View == <<cfg, at, inf, glob, dead, ops, done>>

Scenario == [kind |-> "info", root |-> "ws/proj", build |-> "out", make |-> SetToSeq(GlobFiles),
             cfg |-> [k \in DOMAIN Config[cfg] |-> SetToSeq(Config[cfg][k])], tc |-> TcFlags,
             steps |-> hist, end |-> IF done = "rejected" THEN "rejected" ELSE "ok", lab |-> <<cfg \o " " \o at>> \o ops]
Printed == done # "no" => PrintT("SCEN " \o ToJson(Scenario))

FewFills == {<<"none", "two">>, <<"two", "one">>}
OneFill == {<<"one", "two">>}
AllFills == {"none", "one", "two"} \X {"none", "one", "two"}
Std == {"std"}
Own == {"own"}
Cfgs == {"std", "own"}
AtIn == {"in"}
AtAbs == {"abs"}
Ats == {".", "in", "abs"}
=============================================================================
