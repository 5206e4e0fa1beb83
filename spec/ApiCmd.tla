------------------------------- MODULE ApiCmd -------------------------------
(***************************************************************************)
(* Commands and text: a pattern is expanded with the default arguments and  *)
(* those of the call; a doubled brace stands for a brace; values are taken  *)
(* as they are; an unknown name or a stray brace is rejected. Executing     *)
(* hands exactly the command and directory to the system, collects the      *)
(* output that was asked for and succeeds iff the exit status is 0.         *)
(* Splitting, trimming, saving and loading text lose nothing.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Part,      \* which part of the interface
          MaxLen     \* bound on the length of texts

VARIABLES txt, defs, hist, done
vars == <<txt, defs, hist, done>>

Ch(s, k) == SubSeq(s, k, k)
From(s, k) == SubSeq(s, k, Len(s))

(* ------------------------------------------------------------ expansion --- *)
Bad == "\\bad"
IsWord(c) == c \in {"x", "y", "a", "_"}
RECURSIVE Word(_)
Word(s) == IF s # "" /\ IsWord(Ch(s, 1)) THEN Ch(s, 1) \o Word(From(s, 2)) ELSE ""
RECURSIVE Expand(_, _)
Expand(s, env) == \* the expansion, or Bad
  IF s = "" THEN ""
  ELSE LET then(v, rest) == LET e == Expand(rest, env) IN IF e = Bad THEN Bad ELSE v \o e IN
    IF Ch(s, 1) = "{" THEN
       IF Len(s) >= 2 /\ Ch(s, 2) = "{" THEN then("{", From(s, 3))
       ELSE LET n == Word(From(s, 2)) IN
            IF n = "" \/ n \notin DOMAIN env THEN Bad
            ELSE IF Len(s) >= Len(n) + 2 /\ Ch(s, Len(n) + 2) = "}" THEN then(env[n], From(s, Len(n) + 3))
            ELSE Bad
    ELSE IF Ch(s, 1) = "}" THEN IF Len(s) >= 2 /\ Ch(s, 2) = "}" THEN then("}", From(s, 3)) ELSE Bad
    ELSE then(Ch(s, 1), From(s, 2))
RECURSIVE Has(_, _)
Has(s, t) == Len(s) >= Len(t) /\ (SubSeq(s, 1, Len(t)) = t \/ Has(From(s, 2), t))
Specified(s) == ~Has(s, "{}")  \* what an empty name means is not specified

(* ------------------------------------------------------------- splitting --- *)
RECURSIVE Pieces(_, _, _)
Pieces(s, d, acc) == \* the text between delimiters; nothing after the last one
  IF s = "" THEN IF acc = "" THEN <<>> ELSE <<acc>>
  ELSE IF Ch(s, 1) = d THEN <<acc>> \o Pieces(From(s, 2), d, "")
  ELSE Pieces(From(s, 2), d, acc \o Ch(s, 1))
Blank(c) == c \in {" ", "\t", "\n"}
RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ Blank(Ch(s, 1)) THEN LTrim(From(s, 2)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ Blank(Ch(s, Len(s))) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

Alphabet == CASE Part = "expand" -> {"{", "}", "x", "a"}
              [] Part = "values" -> {"{x}", "{y}", "{{", "}}", "{_a}", " \"q\" ", "{z}"}
              [] Part = "split" -> {":", "a", ";", " "}
              [] Part = "trim" -> {" ", "\t", "\n", "b"}
              [] Part = "file" -> {"l\n", "\r\n", "x", "\t", "@0"}  \* @0 stands for a zero byte
              [] OTHER -> {"ls", " ", "\"a b\""}

Defs == "none" :> [k \in {} |-> ""] @@ "x" :> [x |-> "V"] @@ "braces" :> [x |-> "{y}}{"] @@ "empty" :> [x |-> ""]
        @@ "two" :> [x |-> "{{", y |-> "{x}"] @@ "many" :> [x |-> "1", y |-> "2 3", xy |-> "{0}", _a |-> "\\\"\n"]
Init == /\ txt = "" /\ hist = <<>> /\ done = "no"
        /\ defs \in (IF Part \in {"expand", "values"} THEN {"none", "x", "braces", "empty", "two", "many"} ELSE {"none"})

More == Len(hist) = 0 /\ Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = txt \o c /\ UNCHANGED <<hist, done, defs>>
Env == Defs[defs]
(* the arguments as defaults, as arguments of the call, or divided; a default   *)
(* that is given again stays what it was                                        *)
Again(L) == IF L = <<>> THEN <<>>
            ELSE <<[op |-> "def", k |-> L[1], v |-> "other", want |-> TRUE],
                   [op |-> "defs", m |-> [k \in {L[j] : j \in DOMAIN L} |-> "{other}"], want |-> TRUE]>>
Given(how) ==
  LET D == {k \in DOMAIN Env : how \in {"defaults", "again"} \/ (how = "mixed" /\ k # "x")}
      L == SetToSeq(D)
  IN [d |-> D, ops |-> IF how = "mixed" THEN <<[op |-> "defs", m |-> [k \in D |-> Env[k]], want |-> TRUE]>>
                       ELSE [k \in DOMAIN L |-> [op |-> "def", k |-> L[k], v |-> Env[L[k]], want |-> TRUE]]
                            \o (IF how = "again" THEN Again(L) ELSE <<>>)]
Construct(how) ==
  LET g == Given(how) e == Expand(txt, Env)
      c == [op |-> "construct", p |-> txt, m |-> [k \in DOMAIN Env \ g.d |-> Env[k]], want |-> e]
      all == [op |-> "all", want |-> [bag |-> SetToSeq({<<k, Env[k]>> : k \in g.d})]]
      gets == LET L == SetToSeq(g.d) IN [k \in DOMAIN L |-> [op |-> "get", k |-> L[k], want |-> Env[L[k]]]]
  IN /\ Specified(txt)
     /\ hist' = g.ops \o gets \o <<all, c>> \o (IF e = Bad THEN <<>> ELSE <<c, all>>)
     /\ done' = IF e = Bad THEN "rejected" ELSE "expanded"
GetMissing == /\ txt = "" /\ hist' = Given("defaults").ops \o <<[op |-> "get", k |-> "nope", want |-> ""]>> /\ done' = "rejected"

Split == /\ hist' = <<[op |-> "split", s |-> txt, d |-> ":", want |-> Pieces(txt, ":", "")],
                      [op |-> "split", s |-> txt, d |-> ";", want |-> Pieces(txt, ";", "")]>> /\ done' = "split"
Trim == hist' = <<[op |-> "trim", s |-> txt, want |-> <<LTrim(txt), RTrim(txt), RTrim(LTrim(txt))>>]>> /\ done' = "trim"
RECURSIVE Size(_)
Size(s) == IF s = "" THEN 0 ELSE IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "@0" THEN 1 + Size(From(s, 3)) ELSE 1 + Size(From(s, 2))
File(b1, b2) ==
  /\ hist' = << [op |-> "file", f |-> "t", bin |-> b1, want |-> <<FALSE, "">>],
                [op |-> "file", f |-> "t", c |-> "something longer than the text that follows", bin |-> b2, want |-> TRUE],
                [op |-> "file", f |-> "t", c |-> txt, bin |-> b1, want |-> TRUE],
                [op |-> "file", f |-> "t", bin |-> b2, want |-> <<TRUE, txt>>],
                [op |-> "file", f |-> "t", bin |-> b1, want |-> <<TRUE, txt>>],
                [op |-> "bigfile", f |-> "t", c |-> txt, n |-> 70000, bin |-> b1, want |-> <<TRUE, TRUE, 70000 * Size(txt), TRUE>>],
                [op |-> "file", f |-> "no/t", c |-> txt, bin |-> b1, want |-> FALSE],
                [op |-> "file", f |-> ".", bin |-> b2, want |-> <<FALSE, "">>],
                [op |-> "file", f |-> ".", c |-> txt, bin |-> b2, want |-> FALSE] >>
  /\ done' = "file"
Outputs == {<<>>, <<"one">>, <<"a\n", "b">>, <<"", "x">>, <<"@0b", "a@0">>}
Exec(code, o, e, wo, we, wd) ==
  LET r == [op |-> "exec", cmd |-> txt, code |-> code, out |-> o, err |-> e, o |-> wo, e |-> we,
            want |-> [ok |-> code = 0, cmd |-> txt, wd |-> wd, out |-> IF wo THEN o ELSE <<>>, err |-> IF we THEN e ELSE <<>>]]
  IN /\ hist' = <<IF wd = "" THEN r ELSE r @@ [wd |-> wd]>>
     /\ done' = IF txt = "" THEN "rejected" ELSE "exec"

Act ==
  CASE Part \in {"expand", "values"} -> GetMissing \/ \E how \in {"defaults", "call", "mixed"} \cup (IF Len(txt) <= 3 \/ Part = "values" THEN {"again"} ELSE {}) : Construct(how)
    [] Part = "split" -> Split
    [] Part = "trim" -> Trim
    [] Part = "file" -> \E b1, b2 \in BOOLEAN : File(b1, b2)
    [] Part = "exec" -> \E code \in {0, 1, 2, 255, 256}, o, e \in Outputs, wo, we \in BOOLEAN, wd \in {"", "/tmp", "a b"} : Exec(code, o, e, wo, we, wd)
Next == done = "no" /\ (More \/ (Act /\ UNCHANGED <<txt, defs>>))
Spec == Init /\ [][Next]_vars
View == vars
Scenario == [kind |-> "cmd", steps |-> hist, end |-> IF done = "rejected" THEN "rejected" ELSE "ok", lab |-> <<Part \o " " \o defs \o " " \o done>>]
Printed == done # "no" => PrintT("SCEN " \o ToJson(Scenario))

PExpand == "expand"
PValues == "values"
PSplit == "split"
PTrim == "trim"
PFile == "file"
PExec == "exec"
=============================================================================
