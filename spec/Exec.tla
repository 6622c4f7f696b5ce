-------------------------------- MODULE Exec --------------------------------
(* What one call of exec promises: which words dot is started with, and what *)
(* the call returns, given what became of dot.                               *)
(*                                                                           *)
(* A plan is a call before it is made:                                       *)
(*   args   sequence of [k, v]: kind of argument and its text                *)
(*   fault  "none", or why dot cannot run: "nodir" (no temporary directory), *)
(*          "nowrite" (the file cannot be written), "nodot", "noexec" (dot   *)
(*          missing or not executable), "badarg" (an argument no process can *)
(*          be given)                                                        *)
(* An end is how dot ended: [how, out, err], how = "exit0" is the only       *)
(* success. Texts and outputs are only compared, so any token stands for one.*)
EXTENDS Names

Word(a) ==
  CASE a.k = "custom" -> a.v
    [] a.k = "output" -> "-o" \o a.v
    [] a.k = "layout" -> "-K" \o LayoutName[a.v]
    [] a.k = "format" -> "-T" \o FormatName[a.v]
Words(args) == [i \in 1..Len(args) |-> Word(args[i])]

FileFaults == {"nodir", "nowrite"}
RunFaults  == {"nodot", "noexec", "badarg"}
Faults == FileFaults \union RunFaults \union {"none"}

(* how often dot runs *)
RunsOf(plan) == IF plan.fault = "none" THEN 1 ELSE 0

(* what the call returns; end is only looked at if dot ran *)
Success(plan, end) == plan.fault = "none" /\ end.how = "exit0"
ResultOK(plan, end, r) ==
  IF Success(plan, end) THEN r.res = "ok" /\ r.out = end.out
  ELSE /\ r.res = "err"
       /\ plan.fault = "none" => r.has     \* the message holds what dot wrote to standard error
=============================================================================
