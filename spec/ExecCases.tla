------------------------------ MODULE ExecCases -----------------------------
(* Single calls of exec, every combination of the listed choices: argument   *)
(* lists, texts, ways dot can end, reasons why it cannot run.                *)
EXTENDS Exec, Json, IOUtils, CSV, TLC

Cfg == JsonDeserialize(IOEnv.CFG)  \* seq of [args: choices, max: longest list, cycles: long lists, texts, ends,
                                   \*         faults, apis, every, seed]

(* states hold positions only: TLC does not keep other than ASCII text in *)
(* states it moves to disk                                               *)
VARIABLES pick, st
vars == <<pick, st>>

case == LET B == Cfg[pick.b] IN
  [api |-> B.apis[pick.x], args |-> [i \in 1..Len(pick.f) |-> B.args[pick.f[i]]], text |-> B.texts[pick.t],
   end |-> B.ends[pick.e], fault |-> B.faults[pick.u]]

RECURSIVE Sum(_, _)
Sum(f, i) == IF i > Len(f) THEN 0 ELSE f[i] * (7 * i + 3) + Sum(f, i + 1)

(* the lists: all up to a length, and long ones that go round the choices in steps *)
Lists(B) == UNION { [1..n -> 1..Len(B.args)] : n \in 0..B.max }
            \cup { [i \in 1..B.cycles[y][1] |-> ((i * B.cycles[y][2]) % Len(B.args)) + 1] : y \in 1..Len(B.cycles) }

Init == /\ \E b \in 1..Len(Cfg) : LET B == Cfg[b] IN
             \E f \in Lists(B) :
               \E t \in 1..Len(B.texts), e \in 1..Len(B.ends), u \in 1..Len(B.faults), x \in 1..Len(B.apis) :
                 /\ (Sum(f, 1) + t * 5 + e * 11 + u * 3 + x + B.seed) % B.every = 0
                 /\ pick = [b |-> b, f |-> f, t |-> t, e |-> e, u |-> u, x |-> x]
        /\ st = "plan"

Plan == [args |-> case.args, fault |-> case.fault]
Call == /\ st = "plan" /\ st' = IF RunsOf(Plan) = 1 THEN "runs" ELSE "fails"
        /\ UNCHANGED pick
Run  == /\ st = "runs" /\ st' = IF Success(Plan, case.end) THEN "succeeds" ELSE "fails"
        /\ UNCHANGED pick
Write == /\ st \in {"succeeds", "fails"} /\ st' = "done" /\ UNCHANGED pick
         /\ CSVWrite("%1$s", <<ToJson([case |-> case])>>, IOEnv.OUT)
Done == st = "done" /\ UNCHANGED vars
Next == Call \/ Run \/ Write \/ Done
Spec == Init /\ [][Next]_vars

(* every argument is one word, in its place *)
OneWordEach == /\ Len(Words(case.args)) = Len(case.args)
               /\ \A i \in 1..Len(case.args) : Words(case.args)[i] = Word(case.args[i])
SuccessOnlyByZero == st = "succeeds" => case.fault = "none" /\ case.end.how = "exit0"
=============================================================================
