----------------------------- MODULE BuildCore -----------------------------
(***************************************************************************)
(* What a build *means*, independently of how it is carried out.           *)
(*                                                                         *)
(* A description `d` (one build run's view of the project) is a record     *)
(*   d.builders : sequence of builders, d.deps : sequence of <<a,b>> ("a   *)
(*   depends on b"), d.tests : sequence of target names, d.tcs : the       *)
(*   toolchains (programs, conventions, flags every target inherits).      *)
(* A builder is a record with a `kind`:                                    *)
(*   "target"  : sources, headers, precompiled headers, libraries, flags   *)
(*   "gen"     : a generator with independent ids (inputs, outputs, blob)  *)
(*   "filegen" : one id, a list of shell commands run in order             *)
(*   "tmpl"    : files generated from templates by substitution            *)
(* Every builder is carried out by *steps* <<kind, builder, item>>:        *)
(*   <<"pch",t,"">>, <<"obj",t,source>>, <<"link",t,"">>,                  *)
(*   <<"gen",g,id>>, <<"gcmd",g,index>>, <<"tmpl",g,input>>, <<"test",t,"">>. *)
(* A file's content is a *stamp*: "v<n>" for what the user wrote, "x<n>"   *)
(* for the product of execution n, "-" when the file does not exist.       *)
(***************************************************************************)
EXTENDS Paths, Integers, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}

Suffix(s, n) == IF Len(s) >= n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE ""

Lang(src) ==
  IF Suffix(src, 2) = ".c" THEN "c"
  ELSE IF Suffix(src, 4) = ".cpp" \/ Suffix(src, 4) = ".cxx" \/ Suffix(src, 3) = ".cc" THEN "cpp"
  ELSE IF Suffix(src, 2) = ".s" \/ Suffix(src, 2) = ".S" \/ Suffix(src, 4) = ".asm" THEN "asm"
  ELSE "?"

Builders(d) == Range(d.builders)
Names(d) == {b.name : b \in Builders(d)}
B(d, n) == CHOOSE b \in Builders(d) : b.name = n
Targets(d) == {b \in Builders(d) : b.kind = "target"}
Gens(d) == {b \in Builders(d) : b.kind = "gen"}
Tmpls(d) == {b \in Builders(d) : b.kind = "tmpl"}
FileGens(d) == {b \in Builders(d) : b.kind = "filegen"}

DirectDeps(d, n) == {e[2] : e \in {x \in Range(d.deps) : x[1] = n}}
RECURSIVE Closure(_, _)
Closure(d, S) ==
  LET N == S \cup UNION {DirectDeps(d, n) : n \in S}
  IN IF N = S THEN S ELSE Closure(d, N)
DepsStar(d, n) == Closure(d, DirectDeps(d, n))   \* everything n depends on

(* ---------------------------------------------------------- locations --- *)
Tc(d, t) == d.tcs[t.tc]
RealName(t) == IF t.as = "" THEN t.name ELSE t.as
BuildBase(d, b) == IF b.bdir = "" THEN d.build ELSE b.bdir
OutDir(d, t) == BuildBase(d, t) \o "/" \o Tc(d, t).name \o "/" \o RealName(t) \o "/"
(* sources keep their place below the root of the target; out of root ".."   *)
(* becomes "__"                                                              *)
ObjRel(d, t, s) ==
  IF d.root = "." /\ t.env = "" THEN s
  ELSE LET q == RelParts(Normal(<<>>, Parts(d.root) \o Parts(t.env)), Parts(s))
       IN Join([k \in DOMAIN q |-> IF q[k] = ".." THEN "__" ELSE q[k]])
Eff(d, t) == IF t.cls \in {"generic", "generic2"} THEN Tc(d, t).id ELSE t.cls
Msvc(d, t) == Eff(d, t) = "msvc"
Gnu(d, t) == Eff(d, t) \in {"gcc", "mingw"}
(* a toolchain "own" has its own extensions and prefixes, a target "own" its  *)
(* own commands                                                               *)
Ids(d, t, msvc, own, other) == CASE Tc(d, t).id = "msvc" -> msvc [] Tc(d, t).id = "own" -> own [] OTHER -> other
ObjExt(d, t) == Ids(d, t, ".obj", ".ob", ".o")
GchExt(d, t) == Ids(d, t, ".pch", ".pcx", ".gch")
HdrExt(d, t) == Ids(d, t, ".h", ".hh", ".h")
IncPre(d, t) == Ids(d, t, "/I", "--inc=", "-I")
LibPre(d, t) == Ids(d, t, "/LIBPATH:", "--lib=", "-L")
Own_(d, t) == t.cls = "own"
Ext(d, t) ==
  CASE Eff(d, t) = "gcc" -> (CASE t.type = "exe" -> "" [] t.type = "static" -> ".a" [] OTHER -> ".so")
    [] Eff(d, t) = "mingw" -> (CASE t.type = "exe" -> ".exe" [] t.type = "static" -> ".a" [] OTHER -> ".dll")
    [] Eff(d, t) = "msvc" -> (CASE t.type = "exe" -> ".exe" [] OTHER -> ".lib")
    [] OTHER -> t.ext
ObjOut(d, t, s) == OutDir(d, t) \o ObjRel(d, t, s) \o ObjExt(d, t)
PchHdr(d, t) == OutDir(d, t) \o "buildcc_pch" \o HdrExt(d, t)
PchOut(d, t) == PchHdr(d, t) \o GchExt(d, t)
PchObjOut(d, t) == OutDir(d, t) \o "buildcc_pch" \o ObjExt(d, t)
LinkOut(d, t) == OutDir(d, t) \o RealName(t) \o Ext(d, t)

HasPch(t) == t.pch # <<>>
HasCpp(t) == \E s \in Range(t.src) : Lang(s) = "cpp"
(* everything a step writes *)
PchOuts(d, t) == {PchOut(d, t)} \cup (IF Msvc(d, t) THEN {PchObjOut(d, t)} ELSE {})
LinkOuts(d, t) ==
  {LinkOut(d, t)} \cup (IF t.type # "dynamic" THEN {}
                        ELSE IF Msvc(d, t) THEN {LinkOut(d, t) \o ".dll"}
                        ELSE IF Eff(d, t) = "mingw" THEN {LinkOut(d, t) \o ".a"} ELSE {})

(* ----------------------------------------------------------- commands --- *)
(* The command of every step, as a sequence of arguments: flags come from    *)
(* the toolchain, then from the kind of target, then from the user.          *)
Own(d, t, k) ==
  CASE Gnu(d, t) /\ k = "com" /\ t.type = "dynamic" -> <<"-fpic">>
    [] Gnu(d, t) /\ k = "pcho" -> <<"-include", Abs(PchHdr(d, t)), "-H">>
    [] Msvc(d, t) /\ k = "c" -> <<"/nologo">>
    [] Msvc(d, t) /\ k = "cpp" -> <<"/nologo", "/EHsc">>
    [] Msvc(d, t) /\ k = "lnk" -> <<"/nologo">>
    [] Msvc(d, t) /\ k = "pcho" -> <<"/Yu" \o Abs(PchHdr(d, t)), "/FI" \o Abs(PchHdr(d, t)), "/Fp" \o Abs(PchOut(d, t))>>
    [] OTHER -> <<>>
Flags(d, t, k) == Tc(d, t)[k] \o Own(d, t, k) \o t[k]
Prefixed(pre, seq) == [k \in DOMAIN seq |-> pre \o Abs(seq[k])]

Compiler(d, t, l) ==
  CASE l = "asm" -> Tc(d, t).x.as [] l = "c" -> Tc(d, t).x.cc [] l = "cpp" -> Tc(d, t).x.cxx [] OTHER -> ""
LangFlags(d, t, l) ==
  CASE l = "asm" -> Flags(d, t, "asm") [] l = "c" -> Flags(d, t, "c")
    [] l = "cpp" -> Flags(d, t, "cpp") [] OTHER -> <<>>
Front(d, t, l) == <<Compiler(d, t, l)>> \o Flags(d, t, "pre") \o Prefixed(IncPre(d, t), t.inc) \o Flags(d, t, "com")

ObjCmd(d, t, s) ==
  IF Own_(d, t)
  THEN LET x == Tc(d, t).x
       IN <<Compiler(d, t, Lang(s)), "--tools", x.as, x.cc, x.cxx, x.ar, x.ld>> \o Flags(d, t, "com") \o LangFlags(d, t, Lang(s))
            \o (IF HasPch(t) THEN Flags(d, t, "pcho") ELSE <<>>) \o Prefixed(IncPre(d, t), t.inc) \o Flags(d, t, "pre")
            \o <<"-o", Abs(ObjOut(d, t, s)), "-c", Abs(s), "{x}">>
  ELSE Front(d, t, Lang(s))
    \o (IF HasPch(t) THEN Flags(d, t, "pcho") ELSE <<>>)
    \o LangFlags(d, t, Lang(s))
    \o (IF Msvc(d, t) THEN <<"/Fo" \o Abs(ObjOut(d, t, s)), "/c", Abs(s)>>
        ELSE <<"-o", Abs(ObjOut(d, t, s)), "-c", Abs(s)>>)

PchCmd(d, t) ==
  LET l == IF HasCpp(t) THEN "cpp" ELSE "c"
      h == Abs(PchHdr(d, t))
  IN IF Own_(d, t)
     THEN <<Compiler(d, t, l)>> \o LangFlags(d, t, l) \o Flags(d, t, "pchc") \o Flags(d, t, "com") \o Flags(d, t, "pre")
            \o Prefixed(IncPre(d, t), t.inc)
            \o <<"-o", Abs(PchOut(d, t)), "-c", h, "-src", Abs(OutDir(d, t)) \o "buildcc_pch." \o l, "-obj", Abs(PchObjOut(d, t))>>
     ELSE Front(d, t, l)
       \o (IF Msvc(d, t) THEN <<"/Yc" \o h, "/FI" \o h, "/Fp" \o Abs(PchOut(d, t))>> ELSE <<>>)
       \o Flags(d, t, "pchc") \o LangFlags(d, t, l)
       \o (IF Msvc(d, t) THEN <<"/Fo" \o Abs(PchObjOut(d, t)), "/c", Abs(OutDir(d, t)) \o "buildcc_pch." \o l>>
           ELSE <<"-o", Abs(PchOut(d, t)), "-c", h>>)

Objs(d, t) == {Abs(ObjOut(d, t, s)) : s \in Range(t.src)}
LibPaths(d, t) == [k \in DOMAIN t.libs |-> LinkOut(d, B(d, t.libs[k]))]
AbsSeq(s) == [k \in DOMAIN s |-> Abs(s[k])]

(* The objects may be listed in any order; everything else is fixed.        *)
LinkShape(d, t) ==
  LET o == Abs(LinkOut(d, t))
      lnk == Flags(d, t, "lnk")
      x == Tc(d, t).x
      dirs == Prefixed(LibPre(d, t), t.ldir)
      libs == AbsSeq(LibPaths(d, t)) \o t.xlibs
      po == IF HasPch(t) THEN <<Abs(PchObjOut(d, t))>> ELSE <<>>
  IN IF Own_(d, t)
     THEN [pre |-> <<x.ld>> \o libs \o dirs \o lnk \o <<"-o", o>>, post |-> <<"--by", x.cxx, x.ar>>]
     ELSE IF Msvc(d, t)
     THEN CASE t.type = "static" -> [pre |-> <<x.ar>> \o lnk \o <<"/OUT:" \o o>>, post |-> po]
            [] t.type = "dynamic" -> [pre |-> <<x.ld, "/DLL">> \o lnk \o <<"/OUT:" \o o \o ".dll", "/IMPLIB:" \o o>>,
                                      post |-> po]
            [] OTHER -> [pre |-> <<x.ld>> \o lnk \o dirs \o <<"/OUT:" \o o>> \o libs, post |-> po]
     ELSE IF Gnu(d, t) /\ t.type = "static"
     THEN [pre |-> <<x.ar, "rcs", o>>, post |-> <<>>]
     ELSE IF Gnu(d, t) /\ t.type = "dynamic"
     THEN [pre |-> <<x.cxx, "-shared">> \o lnk,
           post |-> <<"-o", o>> \o (IF Eff(d, t) = "mingw" THEN <<"-Wl,--out-implib," \o o \o ".a">> ELSE <<>>)]
     ELSE [pre |-> <<x.cxx>> \o lnk, post |-> <<"-o", o>> \o dirs \o libs]
(* libraries are handed to the linker by executables (and plain targets)     *)
UsesLibs(d, t) == ~(Gnu(d, t) \/ Msvc(d, t)) \/ t.type = "exe"
IsArchive(d, t) == Gnu(d, t) /\ t.type = "static"
IsLinkCmd(d, t, toks) ==
  LET sh == LinkShape(d, t)
      no == Cardinality(Objs(d, t))
      np == Len(sh.pre)
      nq == Len(sh.post)
  IN /\ Len(toks) = np + no + nq
     /\ SubSeq(toks, 1, np) = sh.pre
     /\ SubSeq(toks, np + no + 1, np + no + nq) = sh.post
     /\ Range(SubSeq(toks, np + 1, np + no)) = Objs(d, t)
(* a test is run with the path of the executable and the arguments given     *)
TestCmd(d, t) == <<Abs(LinkOut(d, t)), "--selftest">> \o (IF d.tcfg.arg = "" THEN <<>> ELSE <<"--with=" \o d.tcfg.arg>>)
(* where the output of a test goes                                            *)
TestOut(d, n) == IF d.tcfg.out = <<>> THEN "both"
                 ELSE d.tcfg.out[1 + (((CHOOSE k \in DOMAIN d.tests : d.tests[k] = n) - 1) % Len(d.tcfg.out))]
TestCaught(d, n) == CASE TestOut(d, n) = "def" -> ""
                      [] TestOut(d, n) \in {"out", "usero"} -> "o"
                      [] TestOut(d, n) \in {"err", "usere"} -> "e"
                      [] OTHER -> "oe"
TestShown(d, n) == IF TestOut(d, n) \in {"out", "err", "both"} THEN TestCaught(d, n) ELSE ""
TestDir(d) == IF d.tcfg.wd = "" THEN "" ELSE Abs(d.tcfg.wd)

(* ------------------------------------------------------------- inputs --- *)
PchInputs(t) == Range(t.pch) \cup Range(t.hdr)
ObjInputs(d, t, s) == {s} \cup Range(t.hdr) \cup Range(t.cdep)
                        \cup (IF HasPch(t) THEN {PchOut(d, t)} ELSE {})
LinkInputs(d, t) == {ObjOut(d, t, s) : s \in Range(t.src)} \cup Range(t.ldep)
                      \cup (IF UsesLibs(d, t) THEN Range(LibPaths(d, t)) ELSE {})
                      \cup (IF HasPch(t) /\ Msvc(d, t) THEN {PchObjOut(d, t)} ELSE {})

Id(g, n) == CHOOSE i \in Range(g.ids) : i.id = n
IdNames(g) == {i.id : i \in Range(g.ids)}

(* values of the names a generator substitutes *)
Pat(b, k) == b.pat[CHOOSE j \in DOMAIN b.pat : b.pat[j][1] = k][2]
HasPat(b, k) == \E j \in DOMAIN b.pat : b.pat[j][1] = k
Expand(b, x) == IF Len(x) > 2 /\ SubSeq(x, 1, 1) = "{" /\ HasPat(b, SubSeq(x, 2, Len(x) - 1))
                THEN Pat(b, SubSeq(x, 2, Len(x) - 1)) ELSE x

TargetSteps(t) == {<<"obj", t.name, s>> : s \in Range(t.src)} \cup {<<"link", t.name, "">>}
                    \cup (IF HasPch(t) THEN {<<"pch", t.name, "">>} ELSE {})
GenSteps(g) == {<<"gen", g.name, i>> : i \in IdNames(g)}
GCmd(g, k) == <<"gencmd", g.name, ToString(k), Expand(g, g.cmds[k].x), "-in", Abs(g.cmds[k].in), "-out", Abs(g.cmds[k].out)>>
FileGenSteps(g) == {<<"gcmd", g.name, ToString(k)>> : k \in DOMAIN g.cmds}
TmplSteps(g) == {<<"tmpl", g.name, m.in>> : m \in Range(g.tmpls)}
TmplOut(g, f) == (CHOOSE m \in Range(g.tmpls) : m.in = f).out
Steps(d) == UNION ({TargetSteps(t) : t \in Targets(d)} \cup {GenSteps(g) : g \in Gens(d)}
                   \cup {FileGenSteps(g) : g \in FileGens(d)} \cup {TmplSteps(g) : g \in Tmpls(d)})
Tests(d) == {<<"test", n, "">> : n \in Range(d.tests)}

(* A template file holds "<version>|{project_root_dir}|{project_build_dir}|  *)
(* {current_root_dir}|{current_build_dir}|{k}|{{lit}}"; what is generated    *)
(* from it has the values in place.                                          *)
UpToBar(s) == SubSeq(s, 1, Least({k \in 1..Len(s) : SubSeq(s, k, k) = "|"} \cup {Len(s) + 1}) - 1)
InWs(p) == IF p = "." \/ p = "" THEN "$W" ELSE Abs(p)
TmplVal(d, g, f, stamp) ==
  IF Suffix(f, 5) = "t2.in" THEN stamp      \* a template without names
  ELSE IF Suffix(f, 5) = "t9.in"            \* one with a name, twice, and text of several lines
  THEN UpToBar(stamp) \o "|" \o Pat(g, "k") \o Pat(g, "k") \o "\n}{ \t" \o Pat(g, "k") \o "\n"
  ELSE UpToBar(stamp) \o "|" \o InWs(d.root) \o "|" \o InWs(d.build) \o "|"
    \o InWs(Join(Normal(<<>>, Parts(d.root) \o Parts(g.env)))) \o "|"
    \o InWs(BuildBase(d, g) \o "/" \o g.name) \o "|" \o Pat(g, "k") \o "|{lit}"

(* Files produced by some builder of the description. *)
Products(d) == UNION ({{ObjOut(d, t, s) : s \in Range(t.src)} \cup LinkOuts(d, t) \cup PchOuts(d, t) : t \in Targets(d)}
                      \cup {UNION {Range(i.out) : i \in Range(g.ids)} : g \in Gens(d)}
                      \cup {Range(g.out) : g \in FileGens(d)}
                      \cup {{m.out : m \in Range(g.tmpls)} : g \in Tmpls(d)})

(* What the user must have supplied for builder b to be buildable at all. *)
Supplied(d, b) ==
  LET all == CASE b.kind = "target" ->
                    Range(b.src) \cup Range(b.hdr) \cup Range(b.pch) \cup Range(b.cdep) \cup Range(b.ldep)
               [] b.kind = "gen" -> UNION {Range(i.in) : i \in Range(b.ids)}
               [] b.kind = "tmpl" -> {m.in : m \in Range(b.tmpls)}
               [] OTHER -> Range(b.in)
  IN all \ Products(d)

(* -------------------------------------------------------- change keys --- *)
(* A step needs to be repeated only if its key differs from the key it had  *)
(* when it was last carried out successfully. `D(f)` is the content of f.   *)
Stamped(seq, D(_)) == [k \in DOMAIN seq |-> <<seq[k], D(seq[k])>>]
PchKey(d, t, D(_)) ==
  <<OutDir(d, t), Flags(d, t, "pre"), Flags(d, t, "com"), Flags(d, t, "pchc"), Flags(d, t, "c"), Flags(d, t, "cpp"),
    t.inc, Stamped(t.hdr, D), Stamped(t.pch, D), HasCpp(t)>>
ObjKey(d, t, s, D(_)) ==
  <<OutDir(d, t), Flags(d, t, "pre"), Flags(d, t, "com"), Flags(d, t, "pcho"), Flags(d, t, "asm"), Flags(d, t, "c"),
    Flags(d, t, "cpp"), t.inc, Stamped(t.hdr, D), Stamped(t.cdep, D), D(s),
    IF HasPch(t) THEN D(PchOut(d, t)) ELSE "none">>
LinkKey(d, t, D(_)) ==
  <<t.type, OutDir(d, t), Flags(d, t, "lnk"), t.ldir, t.xlibs, Stamped(t.ldep, D), Stamped(LibPaths(d, t), D),
    {<<s, D(ObjOut(d, t, s))>> : s \in Range(t.src)},
    IF HasPch(t) THEN D(PchOut(d, t)) ELSE "none">>
IdKey(i, D(_)) == <<{<<f, D(f)>> : f \in Range(i.in)}, Range(i.out), i.blob>>
FileGenKey(g, D(_)) == <<{<<f, D(f)>> : f \in Range(g.in)}, Range(g.out), [k \in DOMAIN g.cmds |-> GCmd(g, k)]>>
TmplKey(d, g, f, D(_)) == <<D(f), TmplOut(g, f), Range(g.pat), d.root, d.build, g.env, g.bdir>>

Key(d, st, D(_)) ==
  LET b == B(d, st[2])
  IN CASE st[1] = "pch" -> PchKey(d, b, D)
       [] st[1] = "obj" -> ObjKey(d, b, st[3], D)
       [] st[1] = "link" -> LinkKey(d, b, D)
       [] st[1] = "gen" -> IdKey(Id(b, st[3]), D)
       [] st[1] = "gcmd" -> FileGenKey(b, D)
       [] st[1] = "tmpl" -> TmplKey(d, b, st[3], D)
       [] OTHER -> <<>>

(* -------------------------------------------------------- ideal build --- *)
(* What every file would hold after a build from scratch: user files hold    *)
(* their version, a product holds its command together with what it read.    *)
StepOf(d, f) == \* the step producing f, <<>> for a user file
  LET ts == {t \in Targets(d) : f \in LinkOuts(d, t) \cup PchOuts(d, t) \cup {ObjOut(d, t, s) : s \in Range(t.src)}}
      gs == {g \in Gens(d) : \E i \in Range(g.ids) : f \in Range(i.out)}
      fs == {g \in FileGens(d) : f \in Range(g.out)}
      ms == {g \in Tmpls(d) : \E m \in Range(g.tmpls) : m.out = f}
  IN IF ts # {} THEN LET t == CHOOSE x \in ts : TRUE
                     IN IF f \in LinkOuts(d, t) THEN <<"link", t.name, "">>
                        ELSE IF f \in PchOuts(d, t) THEN <<"pch", t.name, "">>
                        ELSE <<"obj", t.name, CHOOSE s \in Range(t.src) : f = ObjOut(d, t, s)>>
     ELSE IF gs # {} THEN LET g == CHOOSE x \in gs : TRUE
                          IN <<"gen", g.name, (CHOOSE i \in Range(g.ids) : f \in Range(i.out)).id>>
     ELSE IF fs # {} THEN LET g == CHOOSE x \in fs : TRUE
                          IN <<"gcmd", g.name, ToString(CHOOSE k \in DOMAIN g.cmds : g.cmds[k].out = f)>>
     ELSE IF ms # {} THEN LET g == CHOOSE x \in ms : TRUE
                          IN <<"tmpl", g.name, (CHOOSE m \in Range(g.tmpls) : m.out = f).in>>
     ELSE <<>>
StepInputs(d, st) ==
  LET b == B(d, st[2])
  IN CASE st[1] = "pch" -> PchInputs(b) [] st[1] = "obj" -> ObjInputs(d, b, st[3])
       [] st[1] = "link" -> LinkInputs(d, b) [] st[1] = "gen" -> Range(Id(b, st[3]).in)
       [] st[1] = "tmpl" -> {st[3]}
       [] OTHER -> Range(b.in)
RECURSIVE Val(_, _, _), StepVal(_, _, _)
Val(d, v, f) == LET st == StepOf(d, f)
                IN IF st = <<>> THEN <<f, IF f \in DOMAIN v THEN ToString(v[f]) ELSE "-">> ELSE <<f, StepVal(d, v, st)>>
StepVal(d, v, st) ==
  LET b == B(d, st[2])
      cmd == CASE st[1] = "pch" -> <<PchCmd(d, b), b.pch>> [] st[1] = "obj" -> ObjCmd(d, b, st[3])
               [] st[1] = "link" -> LinkShape(d, b) [] st[1] = "gen" -> Id(b, st[3])
               [] st[1] = "tmpl" -> <<b.tmpls, b.pat>>
               [] OTHER -> <<b.cmds, b.pat>>
  IN ToString(<<cmd, {Val(d, v, f) : f \in StepInputs(d, st)}>>)
(* steps that a build of (d,v) must carry out after a build of (d0,v0)       *)
Needed(d0, v0, d, v) == {st \in Steps(d) : st \notin Steps(d0) \/ StepVal(d, v, st) # StepVal(d0, v0, st)}
=============================================================================
