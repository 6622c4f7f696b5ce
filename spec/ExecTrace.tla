------------------------------ MODULE ExecTrace -----------------------------
(* Recorded calls of the real exec against a stand-in dot. Every event is    *)
(* one step; what it has to satisfy depends on the property looked at:       *)
(*   "outcome" what a call returns, "run" how dot is run, "files" what       *)
(*   happens in the temporary directory, "words" only the words dot is given. *)
(* Events: call c | dot c (started, with its words, path and input) |        *)
(*   end c (how it ended, its input just before) | ret c | ls (the temporary *)
(*   directory).                                                             *)
EXTENDS Exec, FiniteSets, Json, IOUtils, CSV, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE

VARIABLES id, i,
          st,     \* per call: "no", "called", "running", "ended", "ret"
          runs,   \* per call: starts of dot
          path,   \* per call: input path
          end,    \* per call: how its dot ended
          ok
vars == <<id, i, st, runs, path, end, ok>>
Rec == Recs[id]
Plan == Rec.plans
Calls == 1..Len(Recs[id].plans)
Op == Rec.ops[i]
None == [how |-> "", out |-> "", err |-> ""]

Init == /\ id \in 1..Len(Recs) /\ i = 1 /\ ok = TRUE
        /\ st = [c \in Calls |-> "no"] /\ runs = [c \in Calls |-> 0]
        /\ path = [c \in Calls |-> ""] /\ end = [c \in Calls |-> None]

Is(e) == i <= Len(Rec.ops) /\ Op.ev = e /\ i' = i + 1 /\ UNCHANGED id
Must(mode, p) == ok' = (Mode = mode => p)

Call == /\ Is("call") /\ st[Op.c] = "no"
        /\ st' = [st EXCEPT ![Op.c] = "called"]
        /\ ok' = TRUE /\ UNCHANGED <<runs, path, end>>

Active(c) == st[c] \in {"called", "running", "ended"}
(* a process whose words and input belong to no call: c = 0 *)
DotOfNobody == /\ Is("dot") /\ Op.c = 0
               /\ Must("run", FALSE) /\ UNCHANGED <<st, runs, path, end>>
Dot == /\ Is("dot") /\ Op.c # 0
       /\ LET c == Op.c IN
          /\ runs' = [runs EXCEPT ![c] = @ + 1]
          /\ path' = [path EXCEPT ![c] = Op.path]
          /\ st' = [st EXCEPT ![c] = IF @ = "called" THEN "running" ELSE @]
          /\ ok' = CASE Mode = "run" ->
                          /\ st[c] = "called" /\ Plan[c].fault = "none"
                          /\ Op.words = Words(Plan[c].args)
                          /\ Op.input = Plan[c].text
                          /\ Op.cwd = Rec.cwd
                     [] Mode = "words" -> Op.words = Words(Plan[c].args)
                     [] Mode = "files" ->
                          /\ Op.input # "missing"
                          /\ \A d \in Calls : d # c /\ Active(d) => path[d] # Op.path
                     [] OTHER -> TRUE
       /\ UNCHANGED end
End == /\ Is("end")
       /\ LET c == Op.c IN
          IF c = 0 THEN ok' = TRUE /\ UNCHANGED <<st, end>>
          ELSE /\ st' = [st EXCEPT ![c] = IF @ = "running" THEN "ended" ELSE @]
               /\ end' = [end EXCEPT ![c] = [how |-> Op.how, out |-> Op.out, err |-> Op.err]]
               \* until now the input was there, unchanged, and the call has not returned
               /\ Must("files", st[c] = "ret" \/ Op.still = Op.input)
       /\ UNCHANGED <<runs, path>>
Ret == /\ Is("ret")
       /\ LET c == Op.c IN
          /\ st' = [st EXCEPT ![c] = "ret"]
          /\ ok' = CASE Mode = "outcome" ->
                          IF runs[c] = 0 THEN Op.res = "err"
                          ELSE IF runs[c] > 1 THEN TRUE          \* not one outcome to speak of
                          ELSE st[c] = "ended" /\ ResultOK([Plan[c] EXCEPT !.fault = "none"], end[c], Op)
                     [] Mode = "run" -> runs[c] = RunsOf(Plan[c])
                     [] Mode = "files" ->
                          /\ Op.gone /\ st[c] # "running"
                          \* its own dot's result
                          /\ (runs[c] = 1 /\ Op.res = "ok") => Op.out = end[c].out
                     [] OTHER -> TRUE
       /\ UNCHANGED <<runs, path, end>>
(* while nothing is under way only what was there before, else at least that *)
Ls == /\ Is("ls")
      /\ LET files == { Op.files[k] : k \in 1..Len(Op.files) }
             before == { Rec.before[k] : k \in 1..Len(Rec.before) }
         IN  Must("files", /\ before \subseteq files
                           /\ (\A c \in Calls : ~Active(c)) => files = before)
      /\ UNCHANGED <<st, runs, path, end>>
Finish == /\ i > Len(Rec.ops) /\ i < 1000000 /\ i' = 1000000
          /\ CSVWrite("%1$s,done", <<id>>, IOEnv.OUT)
          /\ UNCHANGED <<id, st, runs, path, end, ok>>
Stay == i = 1000000 /\ UNCHANGED vars

Next == Call \/ DotOfNobody \/ Dot \/ End \/ Ret \/ Ls \/ Finish \/ Stay
Spec == Init /\ [][Next]_vars

Conforms == ok
AllReturned == i = 1000000 => \A c \in Calls : st[c] = "ret"
Alias == [rec |-> id, event |-> i - 1, st |-> st, runs |-> runs, path |-> path, end |-> end, ok |-> ok]
=============================================================================
