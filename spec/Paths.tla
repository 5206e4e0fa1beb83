------------------------------- MODULE Paths -------------------------------
(* Paths are relative to the workspace, with "/" between their parts.        *)
EXTENDS Naturals, Sequences

Slashes(s) == {k \in 1..Len(s) : SubSeq(s, k, k) = "/"}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Parts(_)
Parts(s) ==
  IF s = "" \/ s = "." THEN <<>>
  ELSE IF Slashes(s) = {} THEN <<s>>
  ELSE LET k == Least(Slashes(s)) IN <<SubSeq(s, 1, k - 1)>> \o Parts(SubSeq(s, k + 1, Len(s)))
RECURSIVE Normal(_, _)
Normal(acc, q) == \* removes ".."
  IF q = <<>> THEN acc
  ELSE IF Head(q) = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN Normal(SubSeq(acc, 1, Len(acc) - 1), Tail(q))
  ELSE IF Head(q) \in {".", ""} THEN Normal(acc, Tail(q))
  ELSE Normal(Append(acc, Head(q)), Tail(q))
RECURSIVE RelParts(_, _)
RelParts(base, f) == \* f as seen from base
  IF base # <<>> /\ f # <<>> /\ Head(base) = Head(f) THEN RelParts(Tail(base), Tail(f))
  ELSE [k \in DOMAIN base |-> ".."] \o f
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o Join(Tail(q))
Abs(p) == "$W/" \o p
=============================================================================
