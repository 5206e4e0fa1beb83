------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* Projects and the changes a user can make to them. A project `p` is       *)
(*   [d |-> description, v |-> file -> version]                             *)
(* and a change is <<label, project'>>. Everything a user can vary in a     *)
(* description is varied here: every list of every target (append, drop,    *)
(* replace, reorder), toolchain-wide flags, generator ids with inputs,      *)
(* outputs and payload, file-generator commands, file contents.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}

T0 == [kind |-> "target", name |-> "t", cls |-> "base", type |-> "exe", ext |-> "", env |-> "", bdir |-> "",
       tc |-> 1, as |-> "", style |-> "abs",
       src |-> <<>>, hdr |-> <<>>, pch |-> <<>>, inc |-> <<>>, ldir |-> <<>>,
       libs |-> <<>>, xlibs |-> <<>>, pre |-> <<>>, com |-> <<>>, pchc |-> <<>>, pcho |-> <<>>,
       asm |-> <<>>, c |-> <<>>, cpp |-> <<>>, lnk |-> <<>>, cdep |-> <<>>, ldep |-> <<>>]
G0 == [kind |-> "gen", name |-> "g", env |-> "", bdir |-> "", style |-> "abs", pat |-> <<>>, ids |-> <<>>]
F0 == [kind |-> "filegen", name |-> "f", env |-> "", bdir |-> "", style |-> "abs", pat |-> <<>>,
       in |-> <<>>, out |-> <<>>, cmds |-> <<>>]
M0 == [kind |-> "tmpl", name |-> "m", env |-> "", bdir |-> "", style |-> "abs", pat |-> <<<<"k", "K0">>>>, tmpls |-> <<>>]
X0 == [as |-> "tas", cc |-> "tcc", cxx |-> "tcxx", ar |-> "tar_", ld |-> "tld"]
Tc0 == [name |-> "tc", id |-> "custom", x |-> X0, pre |-> <<>>, com |-> <<>>, pchc |-> <<>>, pcho |-> <<>>, asm |-> <<>>,
        c |-> <<>>, cpp |-> <<>>, lnk |-> <<>>]
D0 == [builders |-> <<>>, deps |-> <<>>, tests |-> <<>>, tcfg |-> [arg |-> "", wd |-> "", out |-> <<>>], tcs |-> <<Tc0>>,
       root |-> ".", build |-> "build", cwd |-> "", compdb |-> FALSE,
       off |-> <<>>, offdeps |-> <<>>, offtests |-> <<>>]

AllFiles == <<"src/a.c", "src/b.cpp", "src/c.S", "src/sub/a.c", "src/n.c", "src/n.cpp", "src/n.S",
              "lib/l1.c", "lib/l2.cpp", "lib/l3.c", "inc/h.h", "inc/k.h", "inc/p.h", "inc/q.h", "inc/n.h",
              "gin1.txt", "gin2.txt", "gin3.txt", "fin1.txt", "fin2.txt", "dep.txt", "ldep.txt", "n.txt">>
TmplFiles == <<"t1.in", "t2.in", "t9.in", "src/t3.in", "src/t1.in">>
PathFiles == <<"proj/sub/m.c", "proj/sub/my dir/s p.c", "proj/x.c", "proj/sub/x.c", "ext/e.c", "ext/sub/e.c", "proj/my inc/h.h",
               "proj/my inc/p.h", "proj/sub/d p.txt", "ext/l d.txt", "proj/g in.txt", "proj/l.cpp">>
WideFiles == [k \in 1..12 |-> "w/s" \o ToString(k) \o (IF k % 3 = 0 THEN ".cpp" ELSE ".c")]
WideIns == [k \in 1..8 |-> "w/i" \o ToString(k) \o ".txt"]
(* a project whose records are longer than one buffer *)
BigFiles == [k \in 1..40 |-> "src/a directory with a long name/and another one below it/source file number " \o ToString(k) \o (IF k % 4 = 0 THEN ".cpp" ELSE ".c")]
UserOwned == Range(BigFiles) \cup {"w/h" \o ToString(k) \o ".h" : k \in 1..6} \cup {"w/d" \o ToString(k) \o ".txt" : k \in 1..12} \cup Range(AllFiles) \cup Range(TmplFiles) \cup Range(PathFiles) \cup Range(WideFiles) \cup Range(WideIns)
Ver0 == [f \in Range(AllFiles) |-> 0]
VerOf(S) == [f \in S |-> 0]

GenId(n, i, o, b) == [id |-> n, in |-> i, out |-> o, blob |-> b]
FCmd(b, k, i, o) == "gencmd " \o b \o " " \o ToString(k) \o " -in " \o i \o " -out " \o o

(* ------------------------------------------------------------ projects -- *)
(* A generator feeding a library, an executable with a precompiled header,  *)
(* a file generator, a registered test.                                     *)
G1 == [G0 EXCEPT !.name = "g1", !.ids =
        <<GenId("i1", <<"gin1.txt", "gin2.txt">>, <<"build/out/g1.h">>, "B0"),
          GenId("i2", <<"gin2.txt">>, <<"build/out/g2.h", "build/out/g3.h">>, "")>>]
F1 == [F0 EXCEPT !.name = "f1", !.in = <<"fin1.txt">>, !.out = <<"build/out/f1.txt", "build/out/f2.txt">>,
        !.pat = <<<<"z", "-zp">>>>,
        !.cmds = <<[in |-> "fin1.txt", out |-> "build/out/f1.txt", x |-> "{z}"],
                   [in |-> "fin1.txt", out |-> "build/out/f2.txt", x |-> "-z0"]>>]
Lib1 == [T0 EXCEPT !.name = "lib1", !.type = "static", !.ext = ".a", !.src = <<"lib/l1.c", "lib/l2.cpp">>,
          !.hdr = <<"inc/k.h", "build/out/g1.h">>, !.pre = <<"-DL">>, !.inc = <<"inc">>]
App == [T0 EXCEPT !.name = "app", !.src = <<"src/a.c", "src/b.cpp", "src/c.S">>, !.hdr = <<"inc/h.h">>,
         !.pch = <<"inc/p.h">>, !.inc = <<"inc">>, !.libs = <<"lib1">>, !.pre = <<"-DA">>, !.com = <<"-O1">>,
         !.lnk = <<"-Wl">>, !.cdep = <<"dep.txt">>, !.ldep = <<"ldep.txt", "build/out/f2.txt">>,
         !.ldir = <<"ld1">>, !.xlibs = <<"-lm">>, !.cpp = <<"-fx">>, !.c = <<"-fc">>, !.asm = <<"-fa">>]
Mixed == [d |-> [D0 EXCEPT !.builders = <<G1, F1, Lib1, App>>,
                           !.deps = <<<<"lib1", "g1">>, <<"app", "lib1">>, <<"app", "f1">>>>,
                           !.tests = <<"app">>],
          v |-> Ver0]

(* One plain target; two targets and two libraries of the GCC flavour.       *)
Tiny == [d |-> [D0 EXCEPT !.builders = <<[T0 EXCEPT !.name = "app", !.src = <<"src/a.c", "src/b.cpp">>,
                                                    !.hdr = <<"inc/h.h">>]>>], v |-> Ver0]
Gcc == [d |-> [D0 EXCEPT !.builders =
                 <<[T0 EXCEPT !.name = "st", !.cls = "gcc", !.type = "static",
                      !.src = <<"lib/l1.c", "lib/l3.c">>, !.hdr = <<"inc/k.h">>, !.com = <<"-O2">>],
                   [T0 EXCEPT !.name = "dy", !.cls = "gcc", !.type = "dynamic",
                      !.src = <<"lib/l2.cpp">>, !.pch = <<"inc/q.h">>, !.com = <<"-O2">>],
                   [T0 EXCEPT !.name = "ex", !.cls = "gcc", !.src = <<"src/b.cpp", "src/sub/a.c">>,
                      !.pch = <<"inc/p.h">>, !.hdr = <<"inc/h.h">>, !.libs = <<"st", "dy">>,
                      !.xlibs = <<"-lpthread">>]>>,
                 !.deps = <<<<"ex", "st">>, <<"ex", "dy">>>>, !.tcs = <<[Tc0 EXCEPT !.pre = <<"-DTC">>, !.c = <<"-std=c11">>]>>],
        v |-> Ver0]

(* Two entries in every list, so that order and multiplicity matter; a second *)
(* target shares everything but is written in C only (another PCH language).  *)
RichLib(n, f) == [T0 EXCEPT !.name = n, !.type = "static", !.ext = ".lib", !.src = <<f>>]
RichApp == [T0 EXCEPT !.name = "app", !.src = <<"src/a.c", "src/b.cpp", "src/c.S", "src/sub/a.c">>,
              !.hdr = <<"inc/h.h", "inc/k.h">>, !.pch = <<"inc/p.h", "inc/q.h">>, !.inc = <<"inc", "inc2">>,
              !.ldir = <<"ld1", "ld2">>, !.libs = <<"l1", "l2">>, !.xlibs = <<"-lm", "-l:p{0}.so">>,
              !.pre = <<"-DA={}", "-UA">>, !.com = <<"-O1", "-O2">>, !.pchc = <<"-p1", "-p2">>,
              !.pcho = <<"-q1", "-q2">>, !.asm = <<"-a1", "-a2">>, !.c = <<"-c1", "-c2">>,
              !.cpp = <<"-x1", "-x2">>, !.lnk = <<"-l1", "-l2">>, !.cdep = <<"dep.txt", "gin1.txt">>,
              !.ldep = <<"ldep.txt", "gin2.txt">>]
Rich == [d |-> [D0 EXCEPT !.builders = <<RichLib("l1", "lib/l1.c"), RichLib("l2", "lib/l2.cpp"), RichApp>>,
                          !.deps = <<<<"app", "l1">>, <<"app", "l2">>>>,
                          !.tcs = <<[Tc0 EXCEPT !.pre = <<"-DT1", "-DT2">>, !.com = <<"-t1", "-t2">>,
                                             !.lnk = <<"-tl1", "-tl2">>, !.cpp = <<"-tx1", "-tx2">>]>>],
         v |-> Ver0]
(* Longer lists: six entries in every list of the target.                    *)
Six(x) == [k \in 1..6 |-> "-" \o x \o ToString(k)]
ManyFiles == [k \in 1..8 |-> "w/s" \o ToString(k) \o (IF k % 3 = 0 THEN ".cpp" ELSE ".c")]
              \o <<"w/h1.h", "w/h2.h", "w/h3.h", "w/h4.h", "w/h5.h", "w/h6.h">>
              \o [k \in 1..12 |-> "w/d" \o ToString(k) \o ".txt"]
ManyApp == [T0 EXCEPT !.name = "app", !.src = SubSeq(ManyFiles, 1, 8), !.hdr = SubSeq(ManyFiles, 9, 11), !.pch = SubSeq(ManyFiles, 12, 14),
              !.inc = <<"i1", "i2", "i3", "i4", "i5", "i6">>, !.ldir = <<"l1", "l2", "l3", "l4", "l5", "l6">>,
              !.xlibs = Six("l"), !.pre = Six("D"), !.com = Six("m"), !.pchc = Six("p"), !.pcho = Six("q"), !.asm = Six("a"), !.c = Six("c"),
              !.cpp = Six("x"), !.lnk = Six("y"), !.cdep = SubSeq(ManyFiles, 15, 20), !.ldep = SubSeq(ManyFiles, 21, 26),
              !.libs = <<"s1", "s2", "s3">>]
Many == [d |-> [D0 EXCEPT !.builders = <<RichLib("s1", "lib/l1.c"), RichLib("s2", "lib/l2.cpp"), RichLib("s3", "lib/l3.c"), ManyApp>>,
                          !.deps = <<<<"app", "s1">>, <<"app", "s2">>, <<"app", "s3">>>>],
         v |-> VerOf(Range(ManyFiles) \cup {"lib/l1.c", "lib/l2.cpp", "lib/l3.c", "src/n.c", "src/n.cpp", "src/n.S", "inc/n.h", "n.txt", "gin3.txt"})]
(* A project without C++: its precompiled header is a C header.              *)
COnly == [d |-> [D0 EXCEPT !.builders = <<[T0 EXCEPT !.name = "app", !.src = <<"src/a.c", "src/sub/a.c">>,
                                                     !.pch = <<"inc/p.h">>, !.hdr = <<"inc/h.h">>]>>], v |-> Ver0]

(* Dependencies of every kind: a generator on a tool that is itself built,   *)
(* a file generator on the generator, libraries on both, a diamond, and a    *)
(* target on its own.                                                        *)
Net == [d |-> [D0 EXCEPT !.builders =
          <<[T0 EXCEPT !.name = "tool", !.src = <<"src/a.c">>],
            [G0 EXCEPT !.name = "gn", !.ids = <<GenId("i1", <<"build/tc/tool/tool", "gin1.txt">>, <<"build/out/n1.h">>, "")>>],
            [F0 EXCEPT !.name = "fn", !.in = <<"build/out/n1.h">>, !.out = <<"build/out/n2.h">>,
                       !.cmds = <<[in |-> "build/out/n1.h", out |-> "build/out/n2.h", x |-> "-z0"]>>],
            [T0 EXCEPT !.name = "mid", !.type = "static", !.ext = ".a", !.src = <<"lib/l1.c">>, !.hdr = <<"build/out/n2.h">>],
            [T0 EXCEPT !.name = "side", !.type = "static", !.ext = ".a", !.src = <<"lib/l2.cpp">>, !.hdr = <<"build/out/n1.h">>],
            [T0 EXCEPT !.name = "top", !.src = <<"src/b.cpp">>, !.libs = <<"mid", "side">>, !.pch = <<"inc/p.h">>],
            [T0 EXCEPT !.name = "lone", !.src = <<"lib/l3.c">>]>>,
          !.deps = <<<<"gn", "tool">>, <<"fn", "gn">>, <<"mid", "fn">>, <<"side", "gn">>, <<"top", "mid">>, <<"top", "side">>>>,
          !.tests = <<"top", "lone">>],
        v |-> Ver0]

(* Directories with spaces, a root below the workspace, targets with their   *)
(* own root and build directories, sources outside of every root.            *)
Paths == [d |-> [D0 EXCEPT !.root = "proj", !.build = "b d/out", !.compdb = TRUE, !.tcfg = [arg |-> "a1", wd |-> "proj/my inc", out |-> <<"user">>],
          !.builders =
          <<[G0 EXCEPT !.name = "gp", !.style = "pat", !.ids = <<GenId("i 1", <<"proj/g in.txt">>, <<"b d/out/gp/o ut.h">>, "B")>>],
            [T0 EXCEPT !.name = "pl", !.type = "static", !.ext = ".a", !.style = "rel", !.src = <<"proj/l.cpp", "ext/e.c">>,
                       !.hdr = <<"proj/my inc/h.h">>, !.inc = <<"proj/my inc">>],
            [T0 EXCEPT !.name = "pa", !.env = "sub", !.style = "split",
                       !.src = <<"proj/sub/m.c", "proj/sub/my dir/s p.c", "proj/sub/x.c", "proj/x.c", "ext/sub/e.c", "ext/e.c">>,
                       !.hdr = <<"b d/out/gp/o ut.h">>, !.pch = <<"proj/my inc/p.h">>, !.inc = <<"proj/my inc", "proj/sub">>,
                       !.libs = <<"pl">>, !.ldir = <<"ext/l dir">>, !.cdep = <<"proj/sub/d p.txt">>, !.ldep = <<"ext/l d.txt">>],
            [T0 EXCEPT !.name = "pb", !.env = "sub", !.bdir = "alt dir", !.style = "dots", !.src = <<"proj/sub/m.c", "proj/x.c">>,
                       !.hdr = <<"proj/my inc/h.h">>, !.pch = <<"proj/my inc/p.h">>]>>,
          !.deps = <<<<"pa", "gp">>, <<"pa", "pl">>>>, !.tests = <<"pa">>],
          v |-> VerOf(Range(PathFiles) \cup {"src/n.c", "src/n.cpp", "src/n.S", "inc/n.h", "n.txt", "gin3.txt"})]

(* the other families of toolchains and targets *)
Fam(cls, id, x) ==
  [d |-> [D0 EXCEPT !.tcs = <<[Tc0 EXCEPT !.id = id, !.x = x, !.com = <<"-tO">>, !.c = <<"-tc">>, !.lnk = <<"-tL">>]>>,
     !.builders =
       <<[T0 EXCEPT !.name = "st", !.cls = cls, !.type = "static", !.src = <<"lib/l1.c", "lib/l3.c">>, !.hdr = <<"inc/k.h">>,
                    !.pch = <<"inc/q.h">>, !.pre = <<"-DS">>],
         [T0 EXCEPT !.name = "dy", !.cls = cls, !.type = "dynamic", !.src = <<"lib/l2.cpp">>, !.pch = <<"inc/q.h">>,
                    !.com = <<"-O2">>, !.lnk = <<"-ld">>],
         [T0 EXCEPT !.name = "ex", !.cls = cls, !.src = <<"src/b.cpp", "src/sub/a.c", "src/c.S">>, !.pch = <<"inc/p.h">>,
                    !.hdr = <<"inc/h.h">>, !.libs = <<"st", "dy">>, !.xlibs = <<"-lpthread">>, !.inc = <<"inc">>,
                    !.ldir = <<"ld1">>, !.cpp = <<"-x1">>, !.c = <<"-c1">>, !.asm = <<"-a1">>, !.pchc = <<"-p1">>,
                    !.pcho = <<"-q1">>, !.lnk = <<"-l1">>]>>,
     !.deps = <<<<"ex", "st">>, <<"ex", "dy">>>>, !.tests = <<"ex">>, !.compdb = TRUE],
   v |-> Ver0]
MsvcX == [as |-> "cl_as", cc |-> "cl_c", cxx |-> "cl_x", ar |-> "lib_", ld |-> "link_"]
MsvcP == Fam("msvc", "msvc", MsvcX)
MingwP == Fam("mingw", "mingw", X0)
GenGcc == Fam("generic", "gcc", X0)
GenMsvc == Fam("generic2", "msvc", MsvcX)
GenMingw == Fam("generic2", "mingw", X0)
OwnP == Fam("own", "own", X0)
BaseClang == Fam("base", "clang", X0)

(* one target under two toolchains, at the same time *)
TwoTc == [d |-> [D0 EXCEPT
     !.tcs = <<[Tc0 EXCEPT !.name = "tA", !.id = "gcc", !.pre = <<"-DTA">>],
               [Tc0 EXCEPT !.name = "tB", !.id = "gcc", !.x = [X0 EXCEPT !.cc = "ccB", !.cxx = "cxxB"], !.com = <<"-tB">>]>>,
     !.builders =
       <<[T0 EXCEPT !.name = "l@tA", !.as = "l", !.tc = 1, !.cls = "gcc", !.type = "static", !.src = <<"lib/l1.c">>],
         [T0 EXCEPT !.name = "l@tB", !.as = "l", !.tc = 2, !.cls = "gcc", !.type = "static", !.src = <<"lib/l1.c">>],
         [T0 EXCEPT !.name = "a@tA", !.as = "a", !.tc = 1, !.cls = "gcc", !.src = <<"src/a.c", "src/b.cpp">>, !.libs = <<"l@tA">>,
                    !.hdr = <<"inc/h.h">>],
         [T0 EXCEPT !.name = "a@tB", !.as = "a", !.tc = 2, !.cls = "gcc", !.src = <<"src/a.c", "src/b.cpp">>, !.libs = <<"l@tB">>,
                    !.hdr = <<"inc/h.h">>]>>,
     !.deps = <<<<"a@tA", "l@tA">>, <<"a@tB", "l@tB">>>>, !.tests = <<"a@tA", "a@tB">>],
   v |-> Ver0]

(* templates whose products are compiled *)
TmplP == [d |-> [D0 EXCEPT
     !.builders =
       <<[M0 EXCEPT !.name = "m1", !.pat = <<<<"k", "K0">>, <<"z", "Z0">>>>,
            !.tmpls = <<[in |-> "t1.in", out |-> "build/m1/t1.h"], [in |-> "t2.in", out |-> "build/m1/t2.c"],
                        [in |-> "src/t1.in", out |-> "build/m1/s1.h"]>>],
         [M0 EXCEPT !.name = "m2", !.env = "src", !.bdir = "alt", !.style = "pat", !.tmpls = <<[in |-> "src/t3.in", out |-> "alt/m2/t3.h"]>>],
         [T0 EXCEPT !.name = "app", !.src = <<"src/a.c", "build/m1/t2.c">>, !.hdr = <<"build/m1/t1.h">>, !.pch = <<"alt/m2/t3.h">>]>>,
     !.deps = <<<<"app", "m1">>, <<"app", "m2">>>>],
   v |-> VerOf({"t1.in", "t2.in", "t9.in", "src/t3.in", "src/t1.in", "src/a.c", "src/n.c", "src/n.cpp", "src/n.S", "inc/n.h", "n.txt", "gin3.txt"})]

(* many steps side by side *)
Wide == [d |-> [D0 EXCEPT
     !.builders =
       <<[G0 EXCEPT !.name = "gw", !.ids = [k \in 1..8 |-> GenId("i" \o ToString(k), <<WideIns[k]>>, <<"build/out/w" \o ToString(k) \o ".h">>, "")]],
         [T0 EXCEPT !.name = "wide", !.src = WideFiles, !.hdr = <<"build/out/w1.h">>]>>,
     !.deps = <<<<"wide", "gw">>>>],
   v |-> VerOf(Range(WideFiles) \cup Range(WideIns))]

Big == [d |-> [D0 EXCEPT
     !.builders =
       <<[G0 EXCEPT !.name = "gl", !.ids = [k \in 1..40 |-> GenId("identifier number " \o ToString(k), <<BigFiles[k]>>,
                      <<"build/out/a long name of an output file " \o ToString(k) \o ".h">>, "")]],
         [T0 EXCEPT !.name = "big", !.src = BigFiles, !.pre = [k \in 1..160 |-> "-DNAME_OF_A_MACRO_WITH_A_NAME_THAT_IS_RATHER_LONG_" \o ToString(k) \o "=" \o ToString(k * k)]]>>,
     !.deps = <<<<"big", "gl">>>>],
   v |-> VerOf(Range(BigFiles))]

(* generators only: ids that share inputs, commands in order, templates      *)
GensP == [d |-> [D0 EXCEPT
     !.builders =
       <<[G0 EXCEPT !.name = "ga", !.ids =
            <<GenId("i1", <<"gin1.txt", "gin2.txt">>, <<"build/out/a1.h">>, "B0"),
              GenId("i2", <<"gin2.txt">>, <<"build/out/a2.h", "build/out/a3.h">>, ""),
              GenId("i3", <<"fin1.txt">>, <<"build/out/a4.h">>, "Q")>>],
         [G0 EXCEPT !.name = "gb", !.ids =
            <<GenId("i1", <<"build/out/a1.h", "gin2.txt">>, <<"build/out/b1.h">>, ""),
              GenId("i2", <<"build/out/a2.h">>, <<"build/out/b2.h">>, "B0")>>],
         [F0 EXCEPT !.name = "fa", !.in = <<"fin1.txt", "build/out/b1.h">>,
            !.out = <<"build/out/f1.txt", "build/out/f2.txt", "build/out/f4.txt">>,
            !.pat = <<<<"z", "-zp">>, <<"y", "-yp">>>>,
            !.cmds = <<[in |-> "fin1.txt", out |-> "build/out/f1.txt", x |-> "{z}"],
                       [in |-> "build/out/b1.h", out |-> "build/out/f2.txt", x |-> "{y}"],
                       [in |-> "fin1.txt", out |-> "build/out/f4.txt", x |-> "-z0"]>>],
         [M0 EXCEPT !.name = "ma", !.tmpls = <<[in |-> "t1.in", out |-> "build/ma/t1.h"], [in |-> "t2.in", out |-> "build/ma/t2.c"]>>]>>,
     !.deps = <<<<"gb", "ga">>, <<"fa", "gb">>, <<"ma", "ga">>>>],
   v |-> VerOf({"gin1.txt", "gin2.txt", "gin3.txt", "fin1.txt", "fin2.txt", "t1.in", "t2.in", "t9.in"})]

(* a builder that waits for many *)
FanLib(k, f) == [T0 EXCEPT !.name = "n" \o ToString(k), !.type = "static", !.ext = ".a", !.src = <<f>>]
Fan == [d |-> [D0 EXCEPT
     !.builders =
       <<[T0 EXCEPT !.name = "hub", !.src = <<"src/a.c">>, !.libs = <<"n1", "n2", "n3", "n4", "n5">>, !.hdr = <<"build/out/fg.h">>],
         FanLib(1, "lib/l1.c"), FanLib(2, "lib/l2.cpp"), FanLib(3, "lib/l3.c"), FanLib(4, "src/n.c"), FanLib(5, "src/n.cpp"),
         [G0 EXCEPT !.name = "fg", !.ids = <<GenId("i1", <<"gin1.txt">>, <<"build/out/fg.h">>, "")>>],
         [T0 EXCEPT !.name = "o1", !.src = <<"src/b.cpp">>, !.ldep = <<"build/tc/hub/hub">>],
         [T0 EXCEPT !.name = "o2", !.src = <<"src/c.S">>, !.cdep = <<"build/tc/hub/hub">>],
         [T0 EXCEPT !.name = "o3", !.src = <<"src/sub/a.c">>, !.libs = <<"n1">>, !.ldep = <<"build/tc/hub/hub">>],
         [T0 EXCEPT !.name = "o4", !.src = <<"src/n.S">>, !.libs = <<"n2", "n3">>, !.ldep = <<"build/tc/hub/hub">>],
         [T0 EXCEPT !.name = "o5", !.src = <<"lib/l3.c">>, !.ldep = <<"build/tc/o4/o4", "build/tc/hub/hub">>]>>,
     !.deps = <<<<"hub", "n1">>, <<"hub", "n2">>, <<"hub", "n3">>, <<"hub", "n4">>, <<"hub", "n5">>, <<"hub", "fg">>,
                <<"o1", "hub">>, <<"o2", "hub">>, <<"o3", "hub">>, <<"o3", "n1">>,
                <<"o4", "n3">>, <<"o4", "hub">>, <<"o4", "n2">>, <<"o5", "o4">>, <<"o5", "hub">>>>, !.tests = <<"hub">>],
   v |-> Ver0]

(* several tests *)
Tested == [d |-> [D0 EXCEPT
     !.builders = <<[T0 EXCEPT !.name = "lib1", !.type = "static", !.ext = ".a", !.src = <<"lib/l1.c">>],
                    [T0 EXCEPT !.name = "t1", !.src = <<"src/a.c">>, !.libs = <<"lib1">>],
                    [T0 EXCEPT !.name = "t2", !.src = <<"src/b.cpp">>],
                    [T0 EXCEPT !.name = "t3", !.src = <<"lib/l3.c">>],
                    [T0 EXCEPT !.name = "t4", !.src = <<"src/n.c">>],
                    [T0 EXCEPT !.name = "t5", !.src = <<"src/c.S">>]>>,
     !.deps = <<<<"t1", "lib1">>>>, !.tests = <<"t1", "t2", "t3", "t4", "t5">>, !.tcfg = [arg |-> "q1", wd |-> "inc", out |-> <<"user", "out", "err">>]],
   v |-> Ver0]

(* parts of the project are switched off *)
Switched == [d |-> [D0 EXCEPT
     !.builders =
       <<[G0 EXCEPT !.name = "g1", !.ids = <<GenId("i1", <<"gin1.txt">>, <<"build/out/s1.h">>, "")>>],
         [T0 EXCEPT !.name = "lib1", !.type = "static", !.ext = ".a", !.src = <<"lib/l1.c">>, !.hdr = <<"build/out/s1.h">>],
         [T0 EXCEPT !.name = "app", !.src = <<"src/a.c">>, !.libs = <<"lib1">>],
         [T0 EXCEPT !.name = "lone", !.src = <<"lib/l3.c">>]>>,
     !.off = <<[T0 EXCEPT !.name = "offt", !.src = <<"src/b.cpp">>],
               [G0 EXCEPT !.name = "offg", !.ids = <<GenId("i1", <<"gin2.txt">>, <<"build/out/s2.h">>, "")>>]>>,
     !.deps = <<<<"lib1", "g1">>, <<"app", "lib1">>>>, !.offdeps = <<<<"g1", "app">>, <<"lib1", "app">>>>,
     !.tests = <<"app">>, !.offtests = <<"lone">>],
   v |-> Ver0]

(* ------------------------------------------------------------- changes -- *)
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Swap(s) == <<s[2], s[1]>> \o SubSeq(s, 3, Len(s))
SwapLast(s) == SubSeq(s, 1, Len(s) - 2) \o <<s[Len(s)], s[Len(s) - 1]>>
FlagFields == {"pre", "com", "pchc", "pcho", "asm", "c", "cpp", "lnk", "xlibs"}
NewVals(fld) ==
  CASE fld = "src" -> {"src/n.c", "src/n.cpp", "src/n.S"}
    [] fld \in {"hdr", "pch"} -> {"inc/n.h"}
    [] fld \in {"cdep", "ldep"} -> {"n.txt"}
    [] fld \in {"inc", "ldir"} -> {"ndir"}
    [] fld = "xlibs" -> {"-lz"}
    [] fld \in FlagFields -> {"-f" \o fld \o "1"}
    [] OTHER -> {}
TFields == {"src", "hdr", "pch", "inc", "ldir", "xlibs", "pre", "com", "pchc", "pcho", "asm", "c",
            "cpp", "lnk", "cdep", "ldep", "libs"}

SeqChanges(s, fld) ==
  {<<"add " \o v, Append(s, v)>> : v \in NewVals(fld) \ Range(s)}
  \cup {<<"front " \o v, <<v>> \o s>> : v \in IF s = <<>> THEN {} ELSE NewVals(fld) \ Range(s)}
  \cup {<<"drop " \o ToString(k), Drop(s, k)>> : k \in IF fld = "src" /\ Len(s) = 1 THEN {} ELSE DOMAIN s}
  \cup {<<"sub " \o v, [s EXCEPT ![1] = v]>> : v \in IF s = <<>> THEN {} ELSE NewVals(fld) \ Range(s)}
  \cup (IF Len(s) >= 2 THEN {<<"swap", Swap(s)>>} ELSE {})
  \cup (IF Len(s) >= 3 THEN {<<"swap last", SwapLast(s)>>} \cup {<<"last " \o v, [s EXCEPT ![Len(s)] = v]>> : v \in NewVals(fld) \ Range(s)} ELSE {})
  \cup (IF s # <<>> /\ fld \notin {"pch", "libs"} THEN {<<"again " \o s[1], Append(s, s[1])>>} ELSE {})

SetB(p, k, b) == [p EXCEPT !.d.builders[k] = b]
TargetChanges(p) ==
  UNION {LET t == p.d.builders[k]
         IN IF t.kind # "target" THEN {}
            ELSE UNION {{<<t.name \o "." \o fld \o " " \o c[1], SetB(p, k, [t EXCEPT ![fld] = c[2]])>> :
                           c \in SeqChanges(t[fld], fld)} : fld \in TFields}
         : k \in DOMAIN p.d.builders}

IdChanges(gn, ids) ==
  {<<"add id", Append(ids, GenId("i" \o ToString(9 + Len(ids)), <<"gin3.txt">>, <<"build/out/g" \o ToString(9 + Len(ids)) \o gn \o ".h">>, ""))>>}
  \cup {<<"drop id " \o ids[k].id, Drop(ids, k)>> : k \in DOMAIN ids}
  \cup UNION {{<<ids[k].id \o " add input", [ids EXCEPT ![k].in = Append(@, "gin3.txt")]>>,
               <<ids[k].id \o " add output", [ids EXCEPT ![k].out = Append(@, "build/out/gx" \o gn \o ids[k].id \o ".h")]>>,
               <<ids[k].id \o " rename output", [ids EXCEPT ![k].out[1] = "build/out/gy" \o gn \o ids[k].id \o ".h"]>>,
               <<ids[k].id \o " payload", [ids EXCEPT ![k].blob = IF @ = "" THEN "P1" ELSE @ \o "1"]>>}
              \cup (IF Len(ids[k].in) > 1
                    THEN {<<ids[k].id \o " drop input", [ids EXCEPT ![k].in = Drop(@, 1)]>>} ELSE {})
              \cup (IF Len(ids[k].out) > 1
                    THEN {<<ids[k].id \o " drop output", [ids EXCEPT ![k].out = Drop(@, 2)]>>} ELSE {})
              \cup (IF ids[k].blob # ""
                    THEN {<<ids[k].id \o " no payload", [ids EXCEPT ![k].blob = ""]>>} ELSE {})
              : k \in DOMAIN ids}
GenChanges(p) ==
  UNION {LET g == p.d.builders[k]
         IN IF g.kind # "gen" THEN {}
            ELSE {<<g.name \o " " \o c[1], SetB(p, k, [g EXCEPT !.ids = c[2]])>> : c \in IdChanges(g.name, g.ids)}
         : k \in DOMAIN p.d.builders}
FileGenChanges(p) ==
  UNION {LET g == p.d.builders[k]
         IN IF g.kind # "filegen" THEN {}
            ELSE {<<g.name \o " command", SetB(p, k, [g EXCEPT !.cmds[Len(g.cmds)].x = "-z1"])>>,
                  <<g.name \o " add input", SetB(p, k, [g EXCEPT !.in = Append(@, "fin2.txt")])>>,
                  <<g.name \o " drop command", IF Len(g.cmds) < 2 THEN p ELSE SetB(p, k, [g EXCEPT !.out = Drop(@, Len(@)), !.cmds = Drop(@, Len(@))])>>,
                  <<g.name \o " first command", SetB(p, k, [g EXCEPT !.cmds[1].x = "-z2"])>>,
                  <<g.name \o " add command", SetB(p, k, [g EXCEPT !.out = Append(@, "build/out/h" \o ToString(Len(@)) \o g.name \o ".txt"),
                      !.cmds = Append(@, [in |-> g.cmds[1].in, out |-> "build/out/h" \o ToString(Len(g.out)) \o g.name \o ".txt", x |-> "-z0"])])>>}
         : k \in DOMAIN p.d.builders}
TcChanges(p) ==
  UNION {UNION {{<<"tc" \o ToString(k) \o "." \o fld \o " " \o c[1], [p EXCEPT !.d.tcs[k][fld] = c[2]]>> :
                   c \in SeqChanges(p.d.tcs[k][fld], fld)}
                : fld \in {"pre", "com", "pchc", "pcho", "asm", "c", "cpp", "lnk"}} : k \in DOMAIN p.d.tcs}

PatChanges(p) == \* values of the names generators substitute
  UNION {LET g == p.d.builders[k]
         IN IF g.kind \notin {"filegen", "tmpl"} THEN {}
            ELSE {<<g.name \o " value of " \o g.pat[j][1], SetB(p, k, [g EXCEPT !.pat[j][2] = @ \o "1"])>> : j \in DOMAIN g.pat}
         : k \in DOMAIN p.d.builders}
TmplChanges(p) ==
  UNION {LET g == p.d.builders[k]
         IN IF g.kind # "tmpl" THEN {}
            ELSE {<<g.name \o " rename output", SetB(p, k, [g EXCEPT !.tmpls[1].out = (IF g.bdir = "" THEN "build" ELSE g.bdir) \o "/" \o g.name \o "/ty.h"])>>}
                 \cup (IF g.env = "" /\ \A m \in Range(g.tmpls) : m.in # "t9.in" THEN {<<g.name \o " add template",
                        SetB(p, k, [g EXCEPT !.tmpls = Append(@, [in |-> "t9.in", out |-> "build/" \o g.name \o "/t9.h"])])>>} ELSE {})
                 \cup (IF Len(g.tmpls) > 1 THEN {<<g.name \o " drop template", SetB(p, k, [g EXCEPT !.tmpls = Drop(@, 1)])>>} ELSE {})
         : k \in DOMAIN p.d.builders}

(* files the description mentions that the user owns *)
UserFiles(d) ==
  UserOwned \cap
  UNION {LET b == d.builders[k]
         IN CASE b.kind = "target" -> UNION {Range(b[fld]) : fld \in {"src", "hdr", "pch", "cdep", "ldep"}}
              [] b.kind = "gen" -> UNION {Range(i.in) : i \in Range(b.ids)}
              [] b.kind = "tmpl" -> {m.in : m \in Range(b.tmpls)}
              [] OTHER -> Range(b.in)
         : k \in DOMAIN d.builders}
EditChanges(p) == {<<"edit " \o f, [p EXCEPT !.v[f] = @ + 1]>> : f \in UserFiles(p.d) \cap DOMAIN p.v}

(* another type of output, another order of registration, a builder that is   *)
(* left out (nobody depends on it), another toolchain, tests                  *)
Types(t) == {<<ty, t.ext>> : ty \in {"exe", "static", "dynamic"}}
Reverse(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Leaf(d, n) == \A k \in DOMAIN d.builders :
                /\ \A j \in DOMAIN d.deps : d.deps[j][2] # n
                /\ d.builders[k].kind = "target" => n \notin Range(d.builders[k].libs)
WithoutB(d, n) ==
  LET keep(b) == b.name # n
  IN [d EXCEPT !.builders = SelectSeq(@, keep), !.deps = SelectSeq(@, LAMBDA e : e[1] # n /\ e[2] # n),
               !.tests = SelectSeq(@, LAMBDA x : x # n), !.offtests = SelectSeq(@, LAMBDA x : x # n),
               !.offdeps = SelectSeq(@, LAMBDA e : e[1] # n /\ e[2] # n)]
ShapeChanges(p) ==
  UNION {LET t == p.d.builders[k]
         IN IF t.kind # "target" THEN {}
            ELSE {<<t.name \o " becomes " \o ty[1], SetB(p, k, [t EXCEPT !.type = ty[1], !.ext = ty[2]])>> :
                    ty \in {x \in Types(t) : x[1] # t.type}}
         : k \in DOMAIN p.d.builders}
  \cup {<<"without " \o b.name, [p EXCEPT !.d = WithoutB(@, b.name)]>> :
          b \in {x \in Range(p.d.builders) : Leaf(p.d, x.name) /\ Len(p.d.builders) > 1}}
  \cup (IF Len(p.d.builders) > 1 THEN {<<"reversed", [p EXCEPT !.d.builders = Reverse(@)]>>} ELSE {})
  \cup {<<"toolchain " \o p.d.tcs[k].name \o "2", [p EXCEPT !.d.tcs[k].name = @ \o "2"]>> : k \in DOMAIN p.d.tcs}
  \cup (IF p.d.tests # <<>> THEN {<<"no tests", [p EXCEPT !.d.tests = <<>>]>>} ELSE {})
  \cup (IF Len(p.d.tests) > 1 THEN {<<"without test " \o p.d.tests[k], [p EXCEPT !.d.tests = Drop(@, k)]>> : k \in DOMAIN p.d.tests} ELSE {})
  \cup (IF p.d.tests # <<>> /\ Len(p.d.tcfg.out) = 3
        THEN {<<"test output " \o o[1], [p EXCEPT !.d.tcfg.out = o]>> : o \in {<<"def", "both", "user">>, <<"usero", "usere", "def">>}} ELSE {})
  \cup (IF p.d.tests # <<>> THEN {<<"test argument", [p EXCEPT !.d.tcfg.arg = @ \o "9"]>>} ELSE {})

Changes(p) == EditChanges(p) \cup ShapeChanges(p) \cup PatChanges(p) \cup TmplChanges(p) \cup TargetChanges(p) \cup GenChanges(p) \cup FileGenChanges(p) \cup TcChanges(p)
=============================================================================
