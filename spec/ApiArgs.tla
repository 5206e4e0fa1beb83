------------------------------ MODULE ApiArgs ------------------------------
(***************************************************************************)
(* Arguments: every setting has the value given on the command line, else   *)
(* that of the last configuration file that sets it, else its initial one.  *)
(* Settings of one toolchain or target never reach another. A command line  *)
(* with an unknown option or an invalid value, or without root and build    *)
(* directory, is rejected.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxSet,     \* bound on the number of settings made
          Inits,      \* with or without initial values of toolchains and targets
          Pads,
          Late

VARIABLES init,  \* which initial values there are: none, some, all
          cli, f1, f2,  \* settings of the command line and of two configuration files
          pad,   \* configuration files without a setting between these two
          bad, n, done
vars == <<init, cli, f1, f2, pad, bad, n, done>>

Tcs == {"g", "h"}
Tgs == {"t", "u"}
TcKeys == <<"build", "test", "id", "name", "asm_compiler", "c_compiler", "cpp_compiler", "archiver", "linker">>
TgKeys == <<"compile_command", "link_command">>
RootKeys == <<"root_dir", "build_dir", "loglevel", "clean", "ccall", "cdata">>
Elems(s) == {s[k] : k \in DOMAIN s}
(* a setting: <<"", "", key>>, <<"toolchain", name, key>> or <<"target", name, key>> *)
Keys == {<<"", "", k>> : k \in Elems(RootKeys)} \cup {<<"toolchain", t, k>> : t \in Tcs, k \in Elems(TcKeys)}
        \cup {<<"target", t, k>> : t \in Tgs, k \in Elems(TgKeys)}
IsFlag(k) == k[3] \in {"clean", "build", "test"}
Values(k, src) ==
  CASE k[3] \in {"clean", "build", "test"} -> IF src = "cli" THEN {"true"} ELSE {"true", "false"}
    [] k[3] = "loglevel" -> IF src = "cli" THEN {"trace", "DEBUG"} ELSE {"warning", "Critical"}
    [] k[3] = "id" -> IF src = "cli" THEN {"gcc", "Msvc"} ELSE {"clang", "mingw", "custom"}
    [] OTHER -> {src \o " " \o k[3] \o k[2]}
Lower(v) == CASE v = "DEBUG" -> "debug" [] v = "Critical" -> "critical" [] v = "Msvc" -> "msvc" [] OTHER -> v

Empty == [k \in {} |-> ""]
Initial(k) ==
  CASE k = <<"", "", "root_dir">> -> "" [] k = <<"", "", "build_dir">> -> "_internal"
    [] k[3] = "loglevel" -> "info" [] IsFlag(k) -> "false" [] k[3] \in {"ccall", "cdata"} -> "-"
    [] k[3] = "id" -> IF init # "none" /\ k[2] \in {"g"} THEN "gcc" ELSE "undefined"
    [] OTHER -> IF k[2] \in {"g", "t"} /\ (init = "all" \/ (init = "some" /\ k[3] \in {"name", "c_compiler", "linker", "compile_command"})
                                          \/ (init = "rest" /\ k[3] \in {"asm_compiler", "cpp_compiler", "archiver", "link_command"}))
                THEN "init " \o k[3] ELSE ""
Value(k) == IF k \in DOMAIN cli THEN cli[k] ELSE IF k \in DOMAIN f2 THEN f2[k] ELSE IF k \in DOMAIN f1 THEN f1[k] ELSE Initial(k)
Given(k) == k \in DOMAIN cli \cup DOMAIN f1 \cup DOMAIN f2

Init ==
  /\ init \in Inits /\ n = 0 /\ done = "no"
  /\ cli = Empty /\ f2 = Empty /\ pad \in Pads
  /\ f1 \in {Empty, [k \in {<<"", "", "root_dir">>, <<"", "", "build_dir">>} |-> IF k[3] = "root_dir" THEN "r" ELSE "b"]}
  /\ bad \in {"no", "option", "subcommand", "loglevel", "id", "fileid", "filelevel", "nofile", "extra"}

Put(m, k, v) == (k :> v) @@ m
Setting ==
  /\ n < MaxSet /\ n' = n + 1
  /\ \/ \E k \in Keys \ DOMAIN cli : \E v \in Values(k, "cli") : cli' = Put(cli, k, v) /\ UNCHANGED <<f1, f2>>
     \/ \E k \in Keys \ DOMAIN f1 : \E v \in Values(k, "f1") : f1' = Put(f1, k, v) /\ UNCHANGED <<cli, f2>>
     \/ \E k \in Keys \ DOMAIN f2 : \E v \in Values(k, "f2") : f2' = Put(f2, k, v) /\ UNCHANGED <<cli, f1>>
  /\ UNCHANGED <<init, pad, bad, done>>

Missing == ~Given(<<"", "", "root_dir">>) \/ ~Given(<<"", "", "build_dir">>)
(* an invalid value counts when nothing overrides it *)
Counts == /\ (bad \in {"filelevel", "loglevel"} => ~Given(<<"", "", "loglevel">>))
          /\ (bad \in {"fileid", "id"} => ~Given(<<"toolchain", "g", "id">>))
End == /\ n >= Late /\ Counts /\ (bad = "no" \/ n <= Late) /\ done' = (IF Missing \/ bad # "no" THEN "rejected" ELSE "ok") /\ UNCHANGED <<init, cli, f1, f2, pad, bad, n>>
Next == done = "no" /\ (Setting \/ End)
Spec == Init /\ [][Next]_vars
View == vars

(* ------------------------------------------------------------ as text --- *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Line(m, k) == IF k \notin DOMAIN m THEN "" ELSE k[3] \o " = " \o (IF IsFlag(k) THEN m[k] ELSE "\"" \o m[k] \o "\"") \o "\n"
Section(m, kind, nm, ks) ==
  LET body == Cat([j \in DOMAIN ks |-> Line(m, <<kind, nm, ks[j]>>)]) IN
  IF body = "" THEN "" ELSE "[" \o kind \o "." \o nm \o "]\n" \o body
Toml(m, extra) == Cat([j \in DOMAIN RootKeys |-> Line(m, <<"", "", RootKeys[j]>>)]) \o extra
           \o Cat([j \in 1..2 |-> Section(m, "toolchain", <<"h", "g">>[j], TcKeys)])
           \o Cat([j \in 1..2 |-> Section(m, "target", <<"t", "u">>[j], TgKeys)])
Arg(k) == IF k \notin DOMAIN cli THEN <<>> ELSE IF IsFlag(k) THEN <<"--" \o k[3]>> ELSE <<"--" \o k[3], cli[k]>>
Sub(kind, nm, ks) == LET a == Flat([j \in DOMAIN ks |-> Arg(<<kind, nm, ks[j]>>)]) IN IF a = <<>> THEN <<>> ELSE <<nm>> \o a
Group(kind, nms, ks) == LET a == Flat([j \in DOMAIN nms |-> Sub(kind, nms[j], ks)]) IN IF a = <<>> THEN <<>> ELSE <<kind>> \o a
Argv ==
  <<"--config", "f1.toml">> \o Flat([j \in 1..pad |-> <<"--config", "e" \o ToString(j) \o ".toml">>])
  \o <<"--config", IF bad = "nofile" THEN "f3.toml" ELSE "f2.toml">>
  \o Flat([j \in DOMAIN RootKeys |-> Arg(<<"", "", RootKeys[j]>>)])
  \o (CASE bad = "option" -> <<"--nonsense", "1">> [] bad = "loglevel" -> <<"--loglevel", "loud">> [] bad = "extra" -> <<"word">> [] OTHER -> <<>>)
  \o Group("toolchain", <<"g", "h">>, TcKeys)
  \o (CASE bad = "subcommand" -> <<"toolchain", "nonsense">> [] bad = "id" -> <<"toolchain", "g", "--id", "icc">> [] OTHER -> <<>>)
  \o Group("target", <<"u", "t">>, TgKeys)

TypedValue(k) == IF IsFlag(k) THEN Value(k) = "true" ELSE Lower(Value(k))
Want == [k \in Elems(RootKeys) |-> TypedValue(<<"", "", k>>)]
        @@ [x \in {"toolchain." \o t : t \in Tcs} |-> LET t == SubSeq(x, 11, Len(x)) IN [k \in Elems(TcKeys) |-> TypedValue(<<"toolchain", t, k>>)]]
        @@ [x \in {"target." \o t : t \in Tgs} |-> LET t == SubSeq(x, 8, Len(x)) IN [k \in Elems(TgKeys) |-> TypedValue(<<"target", t, k>>)]]
InitTc(t) == [k \in Elems(TcKeys) |-> Initial(<<"toolchain", t, k>>)]
InitTg(t) == [k \in Elems(TgKeys) |-> Initial(<<"target", t, k>>)]
TcDef(t) == IF init # "none" /\ t = "g" THEN [name |-> t, init |-> InitTc(t)] ELSE [name |-> t]
TgDef(t) == IF init # "none" /\ t = "t" THEN [name |-> t, init |-> InitTg(t)] ELSE [name |-> t]
Hid == Lower(Value(<<"toolchain", "g", "id">>))
Full == \A k \in {"name", "asm_compiler", "c_compiler", "cpp_compiler", "archiver", "linker"} : Value(<<"toolchain", "g", k>>) # ""
Constructed == [op |-> "construct", t |-> "g",
   want |-> <<Hid, Value(<<"toolchain", "g", "name">>), Value(<<"toolchain", "g", "asm_compiler">>), Value(<<"toolchain", "g", "c_compiler">>),
              Value(<<"toolchain", "g", "cpp_compiler">>), Value(<<"toolchain", "g", "archiver">>), Value(<<"toolchain", "g", "linker">>)>>]
Started == [op |-> "project", want |-> <<"$W/" \o Value(<<"", "", "root_dir">>), "$W/" \o Value(<<"", "", "build_dir">>), Lower(Value(<<"", "", "loglevel">>))>>]
Steps == IF done = "ok" /\ Full /\ Hid # "undefined" THEN <<Constructed, Started>> ELSE IF done = "ok" THEN <<Started>> ELSE <<>>
Scenario ==
  [kind |-> "args", tcs |-> <<TcDef("g"), TcDef("h")>>, tgs |-> <<TgDef("t"), TgDef("u")>>,
   files |-> ("f1.toml" :> Toml(f1, IF bad = "filelevel" THEN "loglevel = \"loud\"\n" ELSE "")
              @@ [x \in {"e" \o ToString(j) \o ".toml" : j \in 1..pad} |-> "# nothing\n"]
              @@ "f2.toml" :> (Toml(f2, "") \o IF bad = "fileid" THEN "[toolchain.g]\nid = \"icc\"\n" ELSE "")),
   argv |-> Argv, steps |-> Steps, wants |-> <<Want>> \o [k \in DOMAIN Steps |-> Steps[k].want],
   end |-> done,
   lab |-> <<"bad " \o bad, (IF Missing THEN "missing" ELSE "there")>> \o SetToSeq({"cli " \o k[3] : k \in DOMAIN cli} \cup {"f1 " \o k[3] : k \in DOMAIN f1} \cup {"f2 " \o k[3] : k \in DOMAIN f2})]
AllInits == {"none", "some", "rest", "all"}
TwoInits == {"none", "all"}
NoPad == {0}
SomePads == {0, 1, 8}
Printed == done # "no" => PrintT("SCEN " \o ToJson(Scenario))
=============================================================================
