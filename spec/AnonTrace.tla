------------------------------ MODULE AnonTrace -----------------------------
(* Recorded histories of parses. A record has the number of anonymous parts  *)
(* per document (from the reader's specification) and the parses in the      *)
(* order they came back: thread, document, outcome, the names of the         *)
(* anonymous parts, a digest of the rest of the graph, whether all its       *)
(* anonymous ids print as nothing.                                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, i,
          issued,    \* names so far
          digest,    \* per document: the graph it denotes, as seen the first time
          ok
vars == <<id, i, issued, digest, ok>>
Rec == Recs[id]
Range(s) == { s[k] : k \in 1..Len(s) }

Init == /\ id \in 1..Len(Recs) /\ i = 1 /\ issued = {} /\ ok = TRUE
        /\ digest = [d \in 1..Len(Recs[id].parts) |-> ""]

Parse == /\ i <= Len(Rec.ops)
         /\ LET op == Rec.ops[i]
                new == Range(op.names)
            IN  /\ ok' = /\ op.res = "ok"
                         /\ Len(op.names) = Rec.parts[op.d]
                         /\ Cardinality(new) = Len(op.names)
                         /\ new \cap issued = {}
                         /\ digest[op.d] \in {"", op.dig}
                         /\ op.void
                /\ issued' = issued \union new
                /\ digest' = [digest EXCEPT ![op.d] = op.dig]
         /\ i' = i + 1 /\ UNCHANGED id
Finish == /\ i = Len(Rec.ops) + 1 /\ i' = i + 1
          /\ CSVWrite("%1$s,done", <<id>>, IOEnv.OUT)
          /\ UNCHANGED <<id, issued, digest, ok>>
Stay == i > Len(Rec.ops) + 1 /\ UNCHANGED vars
Next == Parse \/ Finish \/ Stay
Spec == Init /\ [][Next]_vars

Conforms == ok
Alias == [rec |-> id, op |-> i - 1, names |-> Cardinality(issued), ok |-> ok]
=============================================================================
