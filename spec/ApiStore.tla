------------------------------ MODULE ApiStore ------------------------------
(***************************************************************************)
(* The object storage: identifiers name at most one live object, which is   *)
(* reached only under its own type, and destroyed exactly once.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Ids, Types, Where, MaxLen,
          Late  \* before that many operations, only objects are added and found

VARIABLES where, m, n, hist, done
vars == <<where, m, n, hist, done>>

Init == where \in Where /\ m = [x \in {} |-> 0] /\ n = 0 /\ hist = <<>> /\ done = <<>>

Has(i) == i \in DOMAIN m
Is(i, t) == Has(i) /\ m[i].ty = t
Rec(op, accepted) == hist' = Append(hist, op) /\ done' = IF accepted THEN <<>> ELSE <<"rejected", op.op, op.id, op.ty>>
Serials == SetToSortSeq({m[i].s : i \in DOMAIN m}, LAMBDA x, y : x < y)

Add(i, t) ==
  /\ Rec([op |-> "add", id |-> i, ty |-> t, v |-> 10 + Len(hist), want |-> n + 1], ~Has(i))
  /\ IF Has(i) THEN UNCHANGED <<m, n>>
     ELSE m' = m @@ (i :> [ty |-> t, s |-> n + 1, v |-> 10 + Len(hist)]) /\ n' = n + 1
Set(i, t) ==
  /\ Rec([op |-> "set", id |-> i, ty |-> t, v |-> 50 + Len(hist), want |-> IF Has(i) THEN m[i].s ELSE 0], Is(i, t))
  /\ m' = IF Is(i, t) THEN [m EXCEPT ![i].v = 50 + Len(hist)] ELSE m
  /\ UNCHANGED n
Get(i, t) ==
  /\ Rec([op |-> "get", id |-> i, ty |-> t, want |-> IF Has(i) THEN <<m[i].s, m[i].v>> ELSE <<>>], Is(i, t))
  /\ UNCHANGED <<m, n>>
Valid(i, t) == Rec([op |-> "valid", id |-> i, ty |-> t, want |-> Is(i, t)], TRUE) /\ UNCHANGED <<m, n>>
Holds(i) == Rec([op |-> "contains", id |-> i, ty |-> "", want |-> Has(i)], TRUE) /\ UNCHANGED <<m, n>>
Clear == Rec([op |-> "clear", id |-> "", ty |-> "", want |-> Serials], TRUE) /\ m' = [x \in {} |-> 0] /\ UNCHANGED n
(* at the end, every object that was not destroyed is still there *)
Found == LET L == SetToSeq(DOMAIN m)
         IN [k \in DOMAIN L |-> [op |-> "get", id |-> L[k], ty |-> m[L[k]].ty, want |-> <<m[L[k]].s, m[L[k]].v>>]]
End == hist' = hist \o Found \o <<[op |-> "end", want |-> Serials]>> /\ done' = <<"end">> /\ UNCHANGED <<m, n>>

Next == /\ done = <<>> /\ UNCHANGED where
        /\ \/ Len(hist) < Late /\ \E t \in Types : \/ \E i \in {"o" \o ToString(n + 1)} \cap Ids : Add(i, t)
                                                \/ \E i \in Ids : Is(i, t) /\ RandomElement(1..30) = 1 /\ Get(i, t)
           \/ /\ Len(hist) < MaxLen /\ Len(hist) >= Late
              /\ \/ \E i \in Ids, t \in Types : Add(i, t) \/ Set(i, t) \/ Get(i, t) \/ Valid(i, t)
                 \/ \E i \in Ids : Holds(i)
                 \/ Clear
           \/ Len(hist) >= Late /\ hist # <<>> /\ End
Spec == Init /\ [][Next]_vars

View == <<where, m, n, done>>
(* objects alive are the ones added and not yet destroyed, one per identifier *)
Unique == \A i, j \in DOMAIN m : i # j => m[i].s # m[j].s
Scenario == [kind |-> "store", where |-> where, steps |-> hist, end |-> IF done[1] = "rejected" THEN "rejected" ELSE "ok",
             lab |-> <<done[1] \o (IF Len(done) > 1 THEN " " \o done[2] ELSE "")>>]
Printed == Unique /\ (done # <<>> => PrintT("SCEN " \o ToJson(Scenario)))
Two == {"x", "y"}
One == {"x"}
Three == {"x", "xy", ""}
Types2 == {"A", "D"}
Types3 == {"A", "D", "Z"}
Hundred == {"o" \o ToString(k) : k \in 1..150}
Both == {"static", "scoped"}
=============================================================================
