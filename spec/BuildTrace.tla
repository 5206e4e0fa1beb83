----------------------------- MODULE BuildTrace -----------------------------
(* Validates executions recorded from the real library (a JSON array of      *)
(* traces) against BuildMon: every event must be one BuildMon knows, and the *)
(* broken guarantees of each trace are printed when its end is reached.      *)
EXTENDS BuildMon, Json, IOUtils

VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)

ev == Traces[tid].events[i]

TInit ==
  /\ tid \in DOMAIN Traces
  /\ i = 2
  /\ MonInit(Traces[tid].events[1].files)

Verdict == "VERDICT " \o ToJson([id |-> Traces[tid].id, n |-> Len(Traces[tid].events), bad |-> bad])

TNext ==
  /\ i <= Len(Traces[tid].events)
  /\ i' = i + 1
  /\ UNCHANGED tid
  /\ CASE ev.e = "write" -> OnWrite(ev.f, ev.st)
       [] ev.e = "run" -> OnRun(ev.desc, ev.race)
       [] ev.e = "registered" -> OnRegistered
       [] ev.e = "start" -> OnStart(ev)
       [] ev.e = "end" -> OnEnd(ev)
       [] ev.e = "post" -> OnPost
       [] ev.e = "done" -> OnDone
       [] ev.e = "die" -> OnDie
       [] ev.e = "iofail" -> OnIoFail(ev.b)
       [] ev.e = "corrupt" -> OnCorrupt(ev.b)
       [] ev.e = "output" -> OnOutput(ev)
       [] ev.e = "off" -> OnOff(ev.b)
       [] ev.e = "exit" -> OnExit(ev)
  /\ (i' = Len(Traces[tid].events) + 1) => PrintT(Verdict')

TSpec == TInit /\ [][TNext]_<<monvars, tid, i>>
=============================================================================
