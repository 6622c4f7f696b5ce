------------------------------ MODULE ExecModel -----------------------------
(* Several calls of exec at the same time, step by step: the temporary file  *)
(* is made, written, dot is started on it, ends, the file is removed, the    *)
(* call returns. Any step but the last may fail, depending on the plan.      *)
EXTENDS Exec, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS N,          \* calls 1..N
          Kinds,      \* kinds of plans: "ok", "fail", "sig" or a fault
          Record      \* write out the schedules of starts and ends
Calls == 1..N
Paths == 1..(N + 1)

VARIABLES kind,   \* per call: its plan
          same,   \* all calls have the same text
          st,     \* per call: where it is
          file,   \* per call: its file, 0 if none
          tmp,    \* the temporary directory: content per path, 0 if there is no such file
          runs,   \* per call: how often dot was started
          res,    \* per call: what it returned
          obs     \* starts and ends so far
vars == <<kind, same, st, file, tmp, runs, res, obs>>

Fault(c) == IF kind[c] \in {"ok", "fail", "sig"} THEN "none" ELSE kind[c]
PlanOf(c) == [fault |-> Fault(c)]
EndOf(c) == [how |-> CASE kind[c] = "ok" -> "exit0" [] kind[c] = "fail" -> "exit1" [] OTHER -> "signal9", out |-> c]
TextOf(c) == IF same THEN 1 ELSE c

Transit == {"called", "made", "written", "ended", "failed", "clean"}
Settled == \A c \in Calls : st[c] \notin Transit

Init == /\ kind \in [Calls -> Kinds] /\ same \in BOOLEAN
        /\ st = [c \in Calls |-> "no"] /\ file = [c \in Calls |-> 0] /\ tmp = [p \in Paths |-> 0]
        /\ runs = [c \in Calls |-> 0] /\ res = [c \in Calls |-> "none"] /\ obs = <<>>

Obs(a, c) == obs' = IF Record THEN Append(obs, [a |-> a, c |-> c]) ELSE obs
To(c, s) == st' = [st EXCEPT ![c] = s]

Call(c) == /\ st[c] = "no" /\ (Record => Settled) /\ \A d \in Calls : d < c => st[d] # "no"
           /\ To(c, "called") /\ Obs("start", c) /\ UNCHANGED <<kind, same, file, tmp, runs, res>>
Make(c) == /\ st[c] = "called" /\ Fault(c) # "nodir"
           /\ \E p \in Paths :
                /\ tmp[p] = 0 /\ \A q \in Paths : q < p => tmp[q] # 0
                /\ file' = [file EXCEPT ![c] = p] /\ tmp' = [tmp EXCEPT ![p] = -1]
           /\ To(c, "made") /\ UNCHANGED <<kind, same, runs, res, obs>>
MakeFails(c) == st[c] = "called" /\ Fault(c) = "nodir" /\ To(c, "failed") /\ UNCHANGED <<kind, same, file, tmp, runs, res, obs>>
Fill(c) == /\ st[c] = "made" /\ Fault(c) # "nowrite"
           /\ tmp' = [tmp EXCEPT ![file[c]] = TextOf(c)]
           /\ To(c, "written") /\ UNCHANGED <<kind, same, file, runs, res, obs>>
FillFails(c) == st[c] = "made" /\ Fault(c) = "nowrite" /\ To(c, "failed") /\ UNCHANGED <<kind, same, file, tmp, runs, res, obs>>
Spawn(c) == /\ st[c] = "written" /\ Fault(c) = "none"
            /\ runs' = [runs EXCEPT ![c] = @ + 1]
            /\ To(c, "running") /\ UNCHANGED <<kind, same, file, tmp, res, obs>>
SpawnFails(c) == st[c] = "written" /\ Fault(c) \in RunFaults /\ To(c, "failed") /\ UNCHANGED <<kind, same, file, tmp, runs, res, obs>>
DotEnds(c) == /\ st[c] = "running" /\ (Record => Settled)
              /\ To(c, "ended") /\ Obs("end", c) /\ UNCHANGED <<kind, same, file, tmp, runs, res>>
Clean(c) == /\ st[c] \in {"ended", "failed"}
            /\ tmp' = IF file[c] = 0 THEN tmp ELSE [tmp EXCEPT ![file[c]] = 0]
            /\ file' = [file EXCEPT ![c] = 0]
            /\ To(c, "clean") /\ UNCHANGED <<kind, same, runs, res, obs>>
Return(c) == /\ st[c] = "clean"
             /\ res' = [res EXCEPT ![c] = IF Success(PlanOf(c), EndOf(c)) THEN "ok" ELSE "err"]
             /\ To(c, "ret") /\ UNCHANGED <<kind, same, file, tmp, runs, obs>>
AllDone == \A c \in Calls : st[c] = "ret"
Write == /\ Record /\ AllDone /\ st # [c \in Calls |-> "written out"]
         /\ CSVWrite("%1$s", <<ToJson([kind |-> kind, same |-> same, sched |-> obs])>>, IOEnv.OUT)
         /\ st' = [c \in Calls |-> "written out"]
         /\ UNCHANGED <<kind, same, file, tmp, runs, res, obs>>
Done == (IF Record THEN st[1] = "written out" ELSE AllDone) /\ UNCHANGED vars

Next == \/ \E c \in Calls : Call(c) \/ Make(c) \/ MakeFails(c) \/ Fill(c) \/ FillFails(c) \/ Spawn(c)
                            \/ SpawnFails(c) \/ DotEnds(c) \/ Clean(c) \/ Return(c)
        \/ Write \/ Done
Spec == Init /\ [][Next]_vars
        /\ \A c \in Calls : WF_vars(Call(c) \/ Make(c) \/ MakeFails(c) \/ Fill(c) \/ FillFails(c) \/ Spawn(c)
                                    \/ SpawnFails(c) \/ DotEnds(c) \/ Clean(c) \/ Return(c))

(* C10 *)
Outcome == \A c \in Calls : st[c] = "ret" => (res[c] = "ok") = (kind[c] = "ok")
(* C11 *)
RunOnce == \A c \in Calls : runs[c] <= 1 /\ (st[c] = "ret" => runs[c] = RunsOf(PlanOf(c)))
Input   == \A c \in Calls : st[c] = "running" => tmp[file[c]] = TextOf(c)
(* C12 *)
Apart   == \A c, d \in Calls : c # d /\ file[c] # 0 => file[c] # file[d]
NoTrace == AllDone => \A p \in Paths : tmp[p] = 0
Owned   == \A p \in Paths : tmp[p] # 0 => \E c \in Calls : file[c] = p
Returns == <>(\A c \in Calls : st[c] \in {"ret", "written out"})
=============================================================================
