------------------------------ MODULE Families ------------------------------
(* The families of histories, selected by the configuration file.           *)
EXTENDS BuildGen

(* plain histories: every change, then nothing, then back, then nothing *)
ShPlain == {<<"run", "change", "run", "run", "undo", "run", "run">>}
(* two changes before a run, two changes in a row; back one *)
ShTwo == {<<"run", "change", "change", "run", "undo", "run">>,
          <<"run", "change", "run", "change", "run", "undo", "run">>}
(* a step fails; the next run repairs (same inputs, or inputs put back) *)
ShFail == {<<"run", "change", "fail", "run", "run">>, <<"run", "change", "fail", "undo", "run", "run">>,
           <<"fail", "run", "run">>, <<"fail", "fail", "run", "run">>}
ShMissing == {<<"run", "missing", "run", "run">>, <<"missing", "run", "run">>,
              <<"run", "change", "missing", "run", "run">>}
ShCrash == {<<"run", "change", "crash", "run", "run">>, <<"run", "change", "crash", "undo", "run", "run">>,
            <<"crash", "run", "run">>}
ShTorn == {<<"run", "change", "torn", "run", "run">>, <<"run", "change", "torn", "undo", "run", "run">>,
           <<"torn", "run", "run">>}
ShCorrupt == {<<"run", "corrupt", "run", "run">>, <<"run", "corrupt", "change", "run", "run">>}
ShCorruptOne == {<<"run", "corrupt", "run", "run">>}
ShNoSpace == {<<"run", "change", "nospace", "run", "run">>, <<"nospace", "run", "run">>,
              <<"run", "change", "nospace", "undo", "run", "run">>}
ShRace == {<<"race", "run", "run">>, <<"run", "change", "race", "run", "run">>}
ShHold == {<<"hold", "run">>, <<"run", "change", "hold", "run">>}
ShHoldEdit == {<<"hold", "run">>, <<"run", "edit", "hold", "run">>}
ShTFail == {<<"run", "change", "tfail", "run">>, <<"tfail", "run">>, <<"run", "tfail", "run", "tfail", "run">>}
ShFirst == {<<"run", "run">>}
ShEditOne == {<<"run", "edit", "run", "run">>}
ShEdit == {<<"run", "edit", "run", "run", "edit", "run">>}
ShSweep == {<<"run", "sweep">>}
ShNone == {}

FModes == {"fail", "failgarbage", "faildel", "throw", "throwint"}
CModes == {"crash0", "crash1", "crash2"}
XModes == {<<"delete", 0>>, <<"empty", 0>>, <<"garbage", 0>>}
          \cup {<<"trunc", k>> : k \in {1, 3, 5, 7, 9}}
          \cup {<<"retype", k>> : k \in 0..7}
          \cup {<<"dropkey", k>> : k \in 0..20} \cup {<<"badkey", k>> : k \in 0..20}
=============================================================================
