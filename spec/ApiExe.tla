------------------------------- MODULE ApiExe -------------------------------
(***************************************************************************)
(* buildexe, the program: from its settings (command line, configuration    *)
(* files, environment) to the commands it runs, over histories of runs.     *)
(*                                                                          *)
(* Immediate mode builds one target from the settings. Script mode verifies *)
(* the host toolchain (builds and runs a program), builds the buildcc       *)
(* library and its process library out of BUILDCC_HOME, builds the user's   *)
(* script against them and the chosen library files, and runs it with the   *)
(* configured files. A run that follows carries out what has changed since. *)
(*                                                                          *)
(* done[st] is the set of states of its inputs with which step st may have  *)
(* been carried out last ({}: never): a step whose present state is not in  *)
(* it must be carried out, one whose present state is all of it must not.   *)
(***************************************************************************)
EXTENDS BuildCore, Json
SX == INSTANCE SequencesExt

CONSTANTS Bases,      \* names of the settings a history starts with
          MaxRuns, MaxMoves, MaxFaults,
          LastFault,  \* may the last run fail?
          EditAll     \* edit every file there is, or one of each kind?

VARIABLES s, v, done, dirty, hist, runs, moves, faults, lab, over
vars == <<s, v, done, dirty, hist, runs, moves, faults, lab, over>>

(* ------------------------------------------------------------ the world --- *)
Under(p, q) == IF q = "" THEN p ELSE p \o "/" \o q
SrcDirs == <<"lib/env/src", "schema/src", "lib/toolchain/src/api", "lib/toolchain/src/common", "lib/toolchain/src/toolchain",
             "lib/target/src/common", "lib/target/src/custom_generator", "lib/target/src/generator", "lib/target/src/api",
             "lib/target/src/target_info", "lib/target/src/target", "lib/target/src/target/friend", "lib/args/src",
             "toolchains/src", "plugins/src">>
IncDirs == <<"", "lib/env/include", "schema/include", "lib/toolchain/include", "lib/target/include", "lib/args/include",
             "toolchains/include", "targets/include", "plugins/include">>
HdrDirs == <<"", "lib/env/include/env", "schema/include/schema", "schema/include/schema/interface",
             "lib/toolchain/include/toolchain", "lib/toolchain/include/toolchain/api", "lib/toolchain/include/toolchain/common",
             "lib/target/include/target", "lib/target/include/target/api", "lib/target/include/target/common",
             "lib/target/include/target/friend", "lib/target/include/target/interface", "lib/args/include/args",
             "toolchains/include/toolchains", "targets/include/targets", "plugins/include/plugins">>
ThirdInc == <<"json/include", "fmt/include", "spdlog/include", "CLI11/include", "taskflow">>
N3 == "json/include/nlohmann"
ThirdHdr == <<N3, N3 \o "/thirdparty/hedley", N3 \o "/detail", N3 \o "/detail/conversions", N3 \o "/detail/input",
              N3 \o "/detail/iterators", N3 \o "/detail/meta", N3 \o "/detail/meta/call_std", N3 \o "/detail/output",
              "fmt/include/fmt", "spdlog/include/spdlog", "spdlog/include/spdlog/cfg", "spdlog/include/spdlog/details",
              "spdlog/include/spdlog/fmt", "spdlog/include/spdlog/sinks", "CLI11/include/CLI",
              "taskflow/taskflow", "taskflow/taskflow/algorithm", "taskflow/taskflow/core", "taskflow/taskflow/cuda",
              "taskflow/taskflow/cuda/algorithm", "taskflow/taskflow/dsl", "taskflow/taskflow/sycl",
              "taskflow/taskflow/sycl/algorithm", "taskflow/taskflow/utility">>

Lib(h) == h \o "/buildcc/buildcc"
Third(h) == h \o "/buildcc/third_party"
Map(F(_), q) == [k \in DOMAIN q |-> F(q[k])]
LibSrcs(h) == [k \in DOMAIN SrcDirs |-> Under(Lib(h), SrcDirs[k]) \o "/s" \o ToString(k) \o ".cpp"]
LibHdrs(h) == [k \in DOMAIN HdrDirs |-> Under(Lib(h), HdrDirs[k]) \o "/h" \o ToString(k) \o ".h"]
ThirdHdrs(h) == [k \in DOMAIN ThirdHdr |-> Third(h) \o "/" \o ThirdHdr[k] \o "/t" \o ToString(k) \o ".hpp"]
Tpl(h) == Third(h) \o "/tiny-process-library"
TplFiles(h) == Map(LAMBDA f : Tpl(h) \o "/" \o f, <<"process.cpp", "process_unix.cpp", "process.hpp", "process_win.cpp">>)

Proj == "proj"
UserFiles == <<"proj/app/main.cpp", "proj/app/u til.cpp", "proj/app/b.c", "proj/app/st.s", "proj/shared/x.cpp">>
LibFiles(h) == Map(LAMBDA f : h \o "/libs/" \o f, <<"la/build.la.cpp", "la/build.la.h", "la/notes.txt", "lb/in/lb.cpp", "lb/in/lb.h">>)
Files(h) == UserFiles \o LibFiles(h) \o LibSrcs(h) \o LibHdrs(h) \o ThirdHdrs(h) \o TplFiles(h)
World(h) == Files(h) \o <<h \o "/libs/README", h \o "/extensions/none">>

(* --------------------------------------------------------- the settings --- *)
S0 == [mode |-> "immediate", type |-> "executable", name |-> "app", home |-> "home", out |-> "out", style |-> "toml", clean |-> FALSE,
       srcs |-> <<"main.cpp">>, includes |-> <<>>, lib_dirs |-> <<>>, external_libs |-> <<>>,
       preprocessor_flags |-> <<>>, common_compile_flags |-> <<>>, asm_compile_flags |-> <<>>, c_compile_flags |-> <<>>,
       cpp_compile_flags |-> <<>>, link_flags |-> <<>>, configs |-> <<>>, la |-> <<>>, lb |-> <<>>, more |-> <<>>, bad |-> ""]
Full == [S0 EXCEPT !.srcs = <<"main.cpp", "u til.cpp", "b.c", "st.s", "../shared/x.cpp">>, !.includes = <<"inc", "more">>, !.lib_dirs = <<"lib">>,
                   !.external_libs = <<"-lm", "extra.a">>, !.preprocessor_flags = <<"-DA=1", "-DB">>, !.common_compile_flags = <<"-O2">>,
                   !.asm_compile_flags = <<"-ma">>, !.c_compile_flags = <<"-std=c11">>, !.cpp_compile_flags = <<"-fno-rtti">>,
                   !.link_flags = <<"-s">>]
Script == [S0 EXCEPT !.mode = "script"]
RichScript == [Full EXCEPT !.mode = "script", !.srcs = <<"main.cpp", "b.c">>, !.configs = <<"one.toml", "t wo.toml">>,
                           !.more = <<"lc">>, !.la = <<"build.la.cpp", "build.la.h", "notes.txt">>, !.lb = <<"in/lb.h", "in/lb.cpp">>]
Base(n) ==
  CASE n = "imm" -> S0 [] n = "immcli" -> [Full EXCEPT !.style = "cli"] [] n = "immfull" -> Full
    [] n = "immstatic" -> [Full EXCEPT !.type = "staticLibrary", !.style = "two"]
    [] n = "immdyn" -> [Full EXCEPT !.type = "dynamicLibrary"]
    [] n = "script" -> Script [] n = "rich" -> RichScript [] n = "richcli" -> [RichScript EXCEPT !.style = "cli"]
    [] n = "spaces" -> [RichScript EXCEPT !.home = "ho me", !.out = "o ut", !.style = "two"]
InScript(x) == x.mode = "script"

(* ------------------------------------------- from settings to a project --- *)
X == [as |-> "$W/bin/as", cc |-> "$W/bin/gcc", cxx |-> "$W/bin/g++", ar |-> "$W/bin/ar", ld |-> "$W/bin/ld"]
Tc0 == [name |-> "gcc", id |-> "gcc", x |-> X, pre |-> <<>>, com |-> <<>>, pchc |-> <<>>, pcho |-> <<>>, asm |-> <<>>,
        c |-> <<>>, cpp |-> <<>>, lnk |-> <<>>]
T0 == [kind |-> "target", name |-> "", as |-> "", cls |-> "generic", type |-> "exe", tc |-> 1, env |-> "", bdir |-> "", ext |-> "", src |-> <<>>, hdr |-> <<>>,
       pch |-> <<>>, cdep |-> <<>>, ldep |-> <<>>, inc |-> <<>>, ldir |-> <<>>, libs |-> <<>>, xlibs |-> <<>>,
       pre |-> <<>>, com |-> <<>>, pchc |-> <<>>, pcho |-> <<>>, asm |-> <<>>, c |-> <<>>, cpp |-> <<>>, lnk |-> <<>>]
Checker == "verify"
Globals == <<"-std=c++17", "-Os", "-Wall", "-Wextra", "-Werror">>
VerifyDir(x) == x.out \o "/verify_host_toolchain"
VerifyT(x) == [T0 EXCEPT !.name = Checker, !.env = "../" \o VerifyDir(x), !.bdir = VerifyDir(x),
                         !.src = <<VerifyDir(x) \o "/verify_host_toolchain.cpp">>, !.cpp = <<"-std=c++17">>]
TplT(x) == [T0 EXCEPT !.name = "libtpl", !.type = "static", !.env = "../" \o Tpl(x.home), !.bdir = x.home \o "/buildcc/_build_exe",
                      !.src = SubSeq(TplFiles(x.home), 1, 2), !.hdr = <<TplFiles(x.home)[3]>>, !.inc = <<Tpl(x.home)>>, !.cpp = Globals]
BccT(x) == [T0 EXCEPT !.name = "libbuildcc", !.type = "static", !.env = "../" \o Lib(x.home), !.bdir = x.home \o "/buildcc/_build_exe",
                      !.src = LibSrcs(x.home), !.hdr = LibHdrs(x.home) \o ThirdHdrs(x.home) \o <<TplFiles(x.home)[3]>>,
                      !.inc = Map(LAMBDA p : Under(Lib(x.home), p), IncDirs) \o Map(LAMBDA p : Third(x.home) \o "/" \o p, ThirdInc) \o <<Tpl(x.home)>>,
                      !.cpp = Globals, !.pre = <<"-DFMT_HEADER_ONLY=1", "-DSPDLOG_FMT_EXTERNAL">>, !.libs = <<"libtpl">>, !.xlibs = <<"-lpthread">>]
Env == "app"
At(p) == Join(Normal(<<>>, <<Proj, Env>> \o Parts(p)))
IsHdr(f) == Suffix(f, 2) = ".h" \/ Suffix(f, 4) = ".hpp"
Dir(p) == LET q == Parts(p) IN Join(SubSeq(q, 1, Len(q) - 1))
LibChoice(x) == Map(LAMBDA f : x.home \o "/libs/la/" \o f, x.la) \o Map(LAMBDA f : x.home \o "/libs/lb/" \o f, x.lb)
LibHdr(x) == x.out \o "/gcc/" \o x.name \o "/buildexe_lib_dirs.h"
PlainUser(x) ==
  [T0 EXCEPT !.name = x.name, !.type = CASE x.type = "executable" -> "exe" [] x.type = "staticLibrary" -> "static" [] OTHER -> "dynamic",
             !.env = Env, !.bdir = x.out, !.src = Map(At, x.srcs), !.inc = Map(At, x.includes), !.ldir = Map(At, x.lib_dirs),
             !.xlibs = x.external_libs, !.pre = x.preprocessor_flags, !.com = x.common_compile_flags, !.asm = x.asm_compile_flags,
             !.c = x.c_compile_flags, !.cpp = x.cpp_compile_flags, !.lnk = x.link_flags]
UserT(x) ==
  IF ~InScript(x) THEN PlainUser(x)
  ELSE LET u == PlainUser(x)
           b == BccT(x)
           ch == LibChoice(x)
           hs == SelectSeq(ch, IsHdr)
       IN [u EXCEPT !.pre = @ \o b.pre, !.cpp = @ \o b.cpp, !.libs = <<"libbuildcc", "libtpl">>, !.xlibs = @ \o b.xlibs,
                    !.inc = @ \o b.inc \o <<x.out \o "/gcc/" \o x.name>> \o Map(Dir, hs),
                    !.hdr = b.hdr \o <<LibHdr(x)>> \o hs,
                    !.src = @ \o SelectSeq(ch, LAMBDA f : Lang(f) # "?")]
Desc(x) == [builders |-> IF InScript(x) THEN <<VerifyT(x), TplT(x), BccT(x), UserT(x)>> ELSE <<UserT(x)>>,
            deps |-> <<>>, tests |-> <<>>, tcs |-> <<Tc0>>, root |-> Proj, build |-> x.out]

(* ---------------------------------------------------------------- a run --- *)
Step(t, src) == <<t.name, src>>          \* "" is the link
Cmd(d, t, src) ==
  IF src # "" THEN ObjCmd(d, t, src)
  ELSE LET sh == LinkShape(d, t) IN sh.pre \o SX!SetToSeq(Objs(d, t)) \o sh.post
Out(d, t, src) == Abs(IF src = "" THEN LinkOut(d, t) ELSE ObjOut(d, t, src))
StepsOf(t) == Range(t.src) \cup {""}
LibsNow(x) == {"la", "lb"} \cup Range(x.more)
Ver(x, f) == IF f = LibHdr(x) THEN ToString(<<"libs", LibsNow(x)>>) ELSE IF f \in DOMAIN v THEN ToString(v[f]) ELSE "0"
(* Of the state of a step's inputs only what can differ is kept: the settings *)
(* of the user's target, and the files that were edited. `wide` concerns all  *)
(* objects of a target.                                                       *)
Edited(x, S) == {<<f, Ver(x, f)>> : f \in S \cap (DOMAIN v \cup {LibHdr(x)})}
IsUser(x, t) == t.name = x.name
ChosenHdrs(x) == IF InScript(x) THEN SelectSeq(LibChoice(x), IsHdr) ELSE <<>>
UserInc(x) == <<x.includes, x.mode, Map(Dir, ChosenHdrs(x))>>
Now(d, x, t, src) ==
  IF src = "" THEN IF IsUser(x, t) THEN [cmd |-> <<Range(t.src), t.lnk, t.ldir, t.xlibs, t.type, x.mode>>, in |-> {}, wide |-> <<>>]
                   ELSE [cmd |-> <<>>, in |-> {}, wide |-> <<>>]
  ELSE [cmd |-> IF IsUser(x, t) THEN <<t.type = "dynamic", t.pre, t.com, LangFlags(d, t, Lang(src)), UserInc(x)>> ELSE <<>>,
        in |-> Edited(x, Range(t.hdr) \cup {src}),
        wide |-> IF IsUser(x, t) THEN <<Edited(x, Range(t.hdr)), t.asm, t.c, t.cpp, t.type, ChosenHdrs(x)>> ELSE <<Edited(x, Range(t.hdr))>>]
Stale == [cmd |-> <<"stale">>, in |-> {}, wide |-> <<>>]
Was(st) == IF st \in DOMAIN done THEN done[st] ELSE {}
Like(a, b) == a.cmd = b.cmd /\ a.in = b.in

(* what a builder must and may carry out; `lib` tells how its libraries went  *)
Plan(d, x, t, lib) ==
  LET now == TLCEval([src \in StepsOf(t) |-> Now(d, x, t, src)])
      may0 == {src \in Range(t.src) : t.name \in dirty \/ t.name = Checker \/ Was(Step(t, src)) # {now[src]}}
      must0 == {src \in Range(t.src) : \A o \in Was(Step(t, src)) : o = Stale \/ ~Like(o, now[src])}
      lk == Was(Step(t, ""))
      linkMust == \/ must0 # {}
                  \/ \A o \in lk : o = Stale \/ o.cmd # now[""].cmd
                  \/ lib = "must" /\ t.type = "exe"
      linkMay == linkMust \/ may0 # {} \/ t.name \in dirty \/ lib # "no" \/ lk # {now[""]}
  IN [must |-> must0 \cup (IF linkMust THEN {""} ELSE {}), may |-> may0 \cup (IF linkMay THEN {""} ELSE {}), now |-> now,
      link |-> IF linkMust THEN "must" ELSE IF linkMay THEN "may" ELSE "no"]

(* the builders one after the other, each with its plan                       *)
RECURSIVE Plans(_, _, _, _)
Plans(d, x, k, lib) ==
  IF k > Len(d.builders) THEN <<>>
  ELSE LET p == TLCEval(Plan(d, x, d.builders[k], lib))
       IN <<p>> \o Plans(d, x, k + 1, IF d.builders[k].name = Checker THEN "no" ELSE IF lib = "must" /\ p.link = "may" THEN "must" ELSE p.link)

Exe(d, t) == <<Abs(LinkOut(d, t))>>
RECURSIVE Given(_)
Given(q) == IF q = <<>> THEN <<>> ELSE <<"--config", Head(q)>> \o Given(Tail(q))
ScriptCmd(d, x) == Exe(d, UserT(x)) \o Given(x.configs)

(* options, as they are given                                                 *)
Lists == <<"srcs", "includes", "lib_dirs", "external_libs", "preprocessor_flags", "common_compile_flags", "asm_compile_flags",
           "c_compile_flags", "cpp_compile_flags", "link_flags">>
One(x, k, val) == IF x.bad = "no " \o k THEN <<>> ELSE <<[k |-> k, one |-> TRUE, v |-> <<val>>]>>
Many(k, vals) == IF vals = <<>> THEN <<>> ELSE <<[k |-> k, one |-> FALSE, v |-> vals]>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Opts(x) ==
  [style |-> x.style, home |-> x.home, out |-> x.out, name |-> x.name, script |-> InScript(x), bad |-> x.bad,
   top |-> <<[k |-> "root_dir", one |-> TRUE, v |-> <<"$W/proj">>], [k |-> "build_dir", one |-> TRUE, v |-> <<"$W/" \o x.out>>],
             [k |-> "loglevel", one |-> TRUE, v |-> <<"critical">>]>>
           \o One(x, "mode", IF x.bad = "mode" THEN "later" ELSE x.mode) \o One(x, "name", x.name)
           \o One(x, "type", IF x.bad = "type" THEN "object" ELSE x.type) \o One(x, "relative_to_root", Env)
           \o Cat([k \in DOMAIN Lists |-> Many(Lists[k], x[Lists[k]])]),
   tc |-> <<[k |-> "id", one |-> TRUE, v |-> <<"gcc">>], [k |-> "name", one |-> TRUE, v |-> <<"gcc">>],
            [k |-> "asm_compiler", one |-> TRUE, v |-> <<"as">>], [k |-> "c_compiler", one |-> TRUE, v |-> <<"gcc">>],
            [k |-> "cpp_compiler", one |-> TRUE, v |-> <<"g++">>], [k |-> "archiver", one |-> TRUE, v |-> <<"ar">>],
            [k |-> "linker", one |-> TRUE, v |-> <<"ld">>]>>,
   sub |-> (IF x.configs = <<>> THEN <<>> ELSE <<[k |-> "script", o |-> Many("configs", x.configs)]>>)
           \o (IF x.la \o x.lb = <<>> THEN <<>> ELSE <<[k |-> "libs", o |-> Many("la", x.la) \o Many("lb", x.lb)]>>),
   clean |-> x.clean]

List(S) == SX!SetToSeq(S)
(* commands by what they write; a program that is run by its own path         *)
Named(d, t, src) == [id |-> Out(d, t, src), toks |-> Cmd(d, t, src)]
RunOf(t, d, toks) == [id |-> "run " \o toks[1], toks |-> toks]

(* A run with a fault: f is <<>> or <<name, item>>; item "run" is running the *)
(* program of that target.                                                    *)
Result(x, f) ==
  LET d == TLCEval(Desc(x))
      bs == d.builders
      n == Len(bs)
      ps == TLCEval(Plans(d, x, 1, "no"))
      at == IF f = <<>> THEN n + 1 ELSE CHOOSE k \in 1..n : bs[k].name = f[1]
      fails(k) == f # <<>> /\ k = at
      item == IF f = <<>> THEN "none" ELSE f[2]
      full(k) == k < at \/ (k = at /\ item = "run")          \* is builder k built completely?
      mustOf(k) == IF full(k) THEN ps[k].must ELSE IF fails(k) THEN (IF item = "" THEN ps[k].must ELSE {item}) ELSE {}
      mayOf(k) == IF full(k) THEN ps[k].may ELSE IF fails(k) THEN (IF item = "" THEN ps[k].may ELSE ps[k].may \ {""}) ELSE {}
      checked == InScript(x) /\ full(1)
      ranUser == InScript(x) /\ full(n)
      cmds == TLCEval([k \in 1..n |-> [src \in mustOf(k) \cup mayOf(k) |-> Named(d, bs[k], src)]])
      must == UNION {{cmds[k][src] : src \in mustOf(k)} : k \in 1..n}
              \cup (IF checked THEN {RunOf(bs[1], d, Exe(d, bs[1]))} ELSE {})
              \cup (IF ranUser THEN {RunOf(bs[n], d, ScriptCmd(d, x))} ELSE {})
      may == UNION {{cmds[k][src] : src \in mayOf(k) \ mustOf(k)} : k \in 1..n}
      outs == TLCEval([k \in 1..n |-> [src \in mustOf(k) \cup mayOf(k) |-> Out(d, bs[k], src)]])
      ids(k) == {outs[k][src] : src \in DOMAIN outs[k]}
      lnks == TLCEval([k \in 1..n |-> Out(d, bs[k], "")])
      lnk(k) == lnks[k]
      order == UNION {{<<o, lnk(k)>> : o \in ids(k) \ {lnk(k)}} : k \in 1..n}
               \cup (IF ~InScript(x) THEN {} ELSE
                     {<<lnk(1), "run " \o lnk(1)>>, <<lnk(n), "run " \o lnk(n)>>}
                     \cup UNION {{<<"run " \o lnk(1), o>> : o \in ids(k)} : k \in 2..n}
                     \cup UNION {{<<lnk(k), o>> : o \in ids(k + 1)} : k \in 2..(n - 1)})
      ok == f = <<>>
      obs == [exit |-> IF ok THEN "ok" ELSE "fail",
              cmds |-> [must |-> List(must), may |-> List(may), order |-> List(order)],
              db |-> IF ok THEN [bag |-> List({Abs(o) : o \in Range(bs[n].src)})] ELSE "any",
              libs |-> IF ok /\ InScript(x) THEN [bag |-> List({<<l, "$W/" \o x.home \o "/libs/" \o l>> : l \in LibsNow(x)})] ELSE "any"]
      fid == IF f = <<>> THEN "" ELSE IF item = "run" THEN "run " \o lnk(at) ELSE Out(d, bs[at], item)
      (* what is known of every step afterwards                               *)
      after(k, src) ==
        IF src \in mustOf(k) /\ ~(fails(k) /\ src = item) THEN {ps[k].now[src]}
        ELSE IF full(k) THEN {ps[k].now[src]}      \* carried out now, or was like this before
        ELSE IF src = "" /\ fails(k) THEN (IF item = "" \/ mustOf(k) \ {item} # {} THEN {} ELSE Was(Step(bs[k], "")) \cup {Stale})
        ELSE IF src \in mayOf(k) /\ src # item THEN Was(Step(bs[k], src)) \cup {ps[k].now[src]}
        ELSE Was(Step(bs[k], src))
      late(k) == \* the library of a builder that was not reached is new
        k > at /\ ~fails(k) /\ \E j \in 2..(k - 1) : full(j) /\ ps[j].link # "no"
      upd == [st \in UNION {{Step(bs[k], src) : src \in StepsOf(bs[k])} : k \in 1..n} |->
                LET k == CHOOSE j \in 1..n : bs[j].name = st[1]
                    a == after(k, st[2])
                IN IF st[2] = "" /\ late(k) THEN a \cup {Stale} ELSE a]
  IN IF f # <<>> /\ item # "run" /\ item \notin ps[at].must THEN <<>>
     ELSE <<[step |-> [op |-> "run", opts |-> Opts(x), fail |-> fid, want |-> obs], done |-> upd @@ [st \in {y \in DOMAIN done : ~\E k \in 1..n : full(k) /\ y[1] = bs[k].name} |-> done[st]],
             dirty |-> (dirty \ {bs[k].name : k \in {j \in 1..n : full(j)}}) \cup (IF f = <<>> \/ item = "run" THEN {} ELSE {bs[at].name})]>>
Run(f) ==
  \E r \in {TLCEval(Result(s, f))} :
     /\ r # <<>>
     /\ hist' = Append(hist, r[1].step)
     /\ done' = r[1].done
     /\ dirty' = r[1].dirty
     /\ runs' = runs + 1 /\ moves' = 0
     /\ faults' = faults + (IF f = <<>> THEN 0 ELSE 1)
     /\ lab' = Append(lab, IF f = <<>> THEN "run" ELSE "fail " \o f[1] \o " " \o f[2])
     /\ s' = [s EXCEPT !.clean = FALSE]
     /\ UNCHANGED <<v, over>>

(* Whether the checker is compiled again is open: when its compilation fails  *)
(* then, either it is noticed or nothing has happened.                        *)
Maybe ==
  /\ InScript(s) /\ LastFault /\ runs + 1 = MaxRuns /\ Step(VerifyT(s), "") \in DOMAIN done
  /\ \E it \in {"", VerifyT(s).src[1]} : \E r \in {TLCEval(Result(s, <<>>))} :
     LET d == TLCEval(Desc(s))
         t == VerifyT(s)
         all == {Named(d, t, src) : src \in StepsOf(t)}
         no == [exit |-> "fail", cmds |-> [must |-> List({Named(d, t, it)}), may |-> List(all \ {Named(d, t, it)}), order |-> <<>>], db |-> "any", libs |-> "any"]
     IN /\ t.src[1] \notin Plan(d, s, t, "no").must
        /\ hist' = Append(hist, [r[1].step EXCEPT !.fail = Out(d, t, it), !.want = [alt |-> <<@, no>>]])
        /\ lab' = Append(lab, "maybe " \o it)
  /\ over' = TRUE /\ runs' = runs + 1
  /\ UNCHANGED <<s, v, done, dirty, moves, faults>>

(* settings that are refused: nothing is run (but what comes before a missing *)
(* source is noticed)                                                         *)
Bads == {"no mode", "no name", "no type", "no relative_to_root", "mode", "type", "nohome", "home", "buildcc", "libs", "extensions",
         "compiler", "source", "ext", "libname", "libsource", "libheader"}
Refusal(b) ==
  LET x == [s EXCEPT !.bad = b, !.srcs = CASE b = "source" -> Append(@, "gone.cpp") [] b = "ext" -> Append(@, "main.rs") [] OTHER -> @,
                     !.la = CASE b = "libsource" -> Append(@, "gone.cpp") [] b = "libheader" -> Append(@, "gone.h") [] OTHER -> @]
      d == TLCEval(Desc(x))
      n == Len(d.builders)
      usable(k) == {src \in StepsOf(d.builders[k]) : k < n \/ (src # "" /\ Lang(src) # "?" /\ src \notin {At("gone.cpp"), x.home \o "/libs/la/gone.cpp"})}
      some == IF b \notin {"source", "ext", "libsource", "libheader"} THEN {}
              ELSE UNION {{Named(d, d.builders[k], src) : src \in usable(k)} : k \in 1..n}
                   \cup (IF InScript(x) THEN {RunOf(d.builders[1], d, Exe(d, d.builders[1]))} ELSE {})
  IN [op |-> "run", opts |-> Opts(x), fail |-> "",
      want |-> [exit |-> "fail", cmds |-> [must |-> <<>>, may |-> List(some), order |-> <<>>], db |-> "any", libs |-> "any"]]
Refuse(b) ==
  /\ b = "libname" => (s.style = "cli" /\ InScript(s))
  /\ b \in {"libsource", "libheader"} => InScript(s)
  /\ \E r \in {TLCEval(Refusal(b))} : hist' = Append(hist, r)
  /\ lab' = Append(lab, "refuse " \o b) /\ over' = TRUE /\ runs' = runs + 1
  /\ UNCHANGED <<s, v, done, dirty, moves, faults>>

(* -------------------------------------------------------------- changes --- *)
Tog(q, e) == IF e \in Range(q) THEN SelectSeq(q, LAMBDA y : y # e) ELSE Append(q, e)
Flagged == <<"preprocessor_flags", "common_compile_flags", "asm_compile_flags", "c_compile_flags", "cpp_compile_flags", "link_flags">>
Changes(x) ==
  {<<k, [x EXCEPT ![k] = Tog(@, "-Dnew" \o k)]>> : k \in Range(Flagged)}
  \cup {<<"drop " \o k, [x EXCEPT ![k] = <<>>]>> : k \in {y \in Range(Lists) \cup {"configs", "la", "lb"} : y # "srcs" /\ x[y] # <<>>}}
  \cup {<<"src " \o f, [x EXCEPT !.srcs = Tog(@, f)]>> : f \in {"u til.cpp", "b.c", "st.s", "../shared/x.cpp"}}
  \cup {<<"include", [x EXCEPT !.includes = Tog(@, "inc2")]>>, <<"lib_dir", [x EXCEPT !.lib_dirs = Tog(@, "li b2")]>>,
        <<"external", [x EXCEPT !.external_libs = Tog(@, "-lz")]>>, <<"nothing", x>>, <<"clean", [x EXCEPT !.clean = TRUE]>>}
  (* (the files of several libraries come in the order of the options)       *)
  \cup (IF x.la = <<>> \/ x.lb = <<>> THEN {<<"style", [x EXCEPT !.style = IF @ = "cli" THEN "toml" ELSE "cli"]>>} ELSE {})
  \cup (IF InScript(x)
        THEN {<<"la", [x EXCEPT !.la = Tog(@, "build.la.cpp")]>>, <<"la.h", [x EXCEPT !.la = Tog(@, "build.la.h")]>>,
              <<"lb.h", [x EXCEPT !.lb = Tog(@, "in/lb.h")]>>, <<"config", [x EXCEPT !.configs = Tog(@, "th$ree.toml")]>>,
              <<"configs", [x EXCEPT !.configs = <<"z.toml">> \o @]>>}
             \cup (IF "ln" \notin Range(x.more) THEN {<<"newlib", [x EXCEPT !.more = Append(@, "ln")]>>} ELSE {})
             \cup (IF "lc" \in Range(x.more) THEN {<<"renlib", [x EXCEPT !.more = Append(SelectSeq(@, LAMBDA y : y # "lc"), "ld")]>>} ELSE {})
        ELSE {<<"type " \o ty, [x EXCEPT !.type = ty]>> : ty \in {"executable", "staticLibrary", "dynamicLibrary"} \ {x.type}})
  \cup (IF x.type = "executable" THEN {<<"mode", [x EXCEPT !.mode = IF @ = "script" THEN "immediate" ELSE "script"]>>} ELSE {})
Change ==
  \E c \in Changes(s) :
    /\ s' = c[2] /\ lab' = Append(lab, c[1])
    /\ hist' = CASE c[1] = "newlib" -> Append(hist, [op |-> "mkdir", f |-> s.home \o "/libs/ln"])
                 [] c[1] = "renlib" -> Append(hist, [op |-> "rename", f |-> s.home \o "/libs/lc", to |-> s.home \o "/libs/ld"])
                 [] OTHER -> hist
    /\ IF c[1] = "clean" \* the build directory goes, with all that was built in it
       THEN LET gone == {Checker, s.name} IN /\ done' = [st \in {y \in DOMAIN done : y[1] \notin gone} |-> done[st]]
                                             /\ dirty' = dirty \ gone
       ELSE UNCHANGED <<done, dirty>>
    /\ UNCHANGED v
Editable(x) == IF EditAll THEN Range(Files(x.home)) ELSE
               {"proj/app/main.cpp", "proj/app/b.c", "proj/shared/x.cpp"}
               \cup (IF ~InScript(x) THEN {} ELSE
                     {LibSrcs(x.home)[1], LibSrcs(x.home)[12], LibHdrs(x.home)[1], LibHdrs(x.home)[11], ThirdHdrs(x.home)[7], TplFiles(x.home)[2],
                      TplFiles(x.home)[3], TplFiles(x.home)[4]} \cup Range(LibFiles(x.home)))
Edit ==
  \E f \in Editable(s) :
    /\ v' = (f :> (IF f \in DOMAIN v THEN v[f] + 1 ELSE 1)) @@ v
    /\ lab' = Append(lab, "edit " \o f)
    /\ hist' = Append(hist, [op |-> "write", f |-> f, v |-> IF f \in DOMAIN v THEN v[f] + 1 ELSE 1])
    /\ UNCHANGED <<s, done, dirty>>
Move == /\ runs >= 1 /\ moves < MaxMoves /\ ~over /\ runs < MaxRuns
        /\ Change \/ Edit
        /\ moves' = moves + 1 /\ UNCHANGED <<runs, faults, over>>

(* ------------------------------------------------------------ histories --- *)
Faults == {<<>>} \cup (IF faults < MaxFaults /\ (runs + 1 < MaxRuns \/ LastFault)
                       THEN LET d == Desc(s) IN
                            {<<t.name, it>> : t \in Range(d.builders), it \in {""} }
                            \cup {<<t.name, t.src[k]>> : t \in Range(d.builders), k \in {1}}
                            \cup (IF InScript(s) THEN {<<Checker, "run">>, <<s.name, "run">>} ELSE {})
                       ELSE {})
Init == /\ \E b \in Bases : s = Base(b) /\ lab = <<b>>
        /\ v = [f \in {} |-> 0] /\ done = [st \in {} |-> {}] /\ dirty = {} /\ hist = <<>>
        /\ runs = 0 /\ moves = 0 /\ faults = 0 /\ over = FALSE
Next == /\ ~over
        /\ \/ Move
           \/ runs < MaxRuns /\ (runs = 0 \/ moves = MaxMoves \/ (runs >= 1 /\ moves >= 1)) /\ \E f \in Faults : Run(f)
           \/ moves = MaxMoves /\ faults < MaxFaults /\ Maybe
           \/ (runs = 0 \/ runs + 1 = MaxRuns) /\ moves = 0 /\ faults = 0 /\ \E b \in Bads : Refuse(b)
Spec == Init /\ [][Next]_vars

View == <<s, v, done, dirty, runs, moves, faults, over, lab>>
Complete == over \/ runs = MaxRuns
rich == {"lc", "ld"} \cap Range(s.more) # {}
Scenario == [kind |-> "exe", world |-> World(s.home) \o (IF rich THEN <<s.home \o "/libs/lc/keep">> ELSE <<>>), steps |-> hist, end |-> "ok", lab |-> lab]
Printed == Complete => PrintT("SCEN " \o ToJson(Scenario))

Quick == {"imm", "immcli", "immstatic", "immdyn", "script", "rich", "richcli", "spaces"}
All == Quick \cup {"immfull"}
Immediate == {"imm", "immcli", "immstatic", "immdyn"}
BImm == {"imm"}
BCli == {"immcli"}
BStatic == {"immstatic"}
BDyn == {"immdyn"}
BScript == {"script"}
BRich == {"rich"}
BRichCli == {"richcli"}
BSpaces == {"spaces"}
Scripts == {"script", "rich", "richcli", "spaces"}
=============================================================================
