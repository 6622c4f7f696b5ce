------------------------------ MODULE AnonModel -----------------------------
(* Parses of documents with anonymous parts by several threads. A document   *)
(* is known by its number of anonymous parts; a parse draws a name for every *)
(* one of them, a step each, so draws of different threads mix. Whatever the *)
(* source of names is, a drawn name is one that was not drawn before.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV

CONSTANTS Threads,   \* 1..Threads
          Parts,     \* per document: its anonymous parts
          Most,      \* parses in a history
          Record     \* histories of whole parses are written out

VARIABLES busy,      \* per thread: [d, names] of the parse it is in, d = 0 if none
          log,       \* finished parses
          begun      \* parses begun so far
vars == <<busy, log, begun>>

PartsM == <<1, 3, 0>>

T == 1..Threads
Docs == 1..Len(Parts)
RECURSIVE Most_(_)
Most_(i) == IF i = 0 THEN 0 ELSE LET m == Most_(i - 1) IN IF Parts[i] > m THEN Parts[i] ELSE m
Names == 1..(Most * Most_(Len(Parts)))
Range(s) == { s[i] : i \in 1..Len(s) }
Idle == [d |-> 0, names |-> <<>>]
Drawn == UNION ({ Range(busy[t].names) : t \in T } \union { Range(log[i].names) : i \in 1..Len(log) })

Init == busy = [t \in T |-> Idle] /\ log = <<>> /\ begun = 0

Begin(t, d) == /\ busy[t].d = 0 /\ begun < Most
               /\ Record => \A u \in T : busy[u].d = 0
               /\ busy' = [busy EXCEPT ![t] = [d |-> d, names |-> <<>>]]
               /\ begun' = begun + 1 /\ UNCHANGED log
Draw(t) == /\ busy[t].d # 0 /\ Len(busy[t].names) < Parts[busy[t].d]
           \* which one does not matter, only that it is a new one
           /\ LET k == CHOOSE k \in Names : k \notin Drawn
              IN  busy' = [busy EXCEPT ![t].names = Append(@, k)]
           /\ UNCHANGED <<log, begun>>
Finish(t) == /\ busy[t].d # 0 /\ Len(busy[t].names) = Parts[busy[t].d]
             /\ log' = Append(log, [t |-> t, d |-> busy[t].d, names |-> busy[t].names])
             /\ busy' = [busy EXCEPT ![t] = Idle] /\ UNCHANGED begun
             /\ (Record /\ begun = Most) =>
                  CSVWrite("%1$s", <<ToJson([ops |-> [i \in 1..Len(log') |-> [t |-> log'[i].t, d |-> log'[i].d]]])>>, IOEnv.OUT)
Done == begun = Most /\ (\A t \in T : busy[t].d = 0) /\ UNCHANGED vars

Next == (\E t \in T : Draw(t) \/ Finish(t) \/ \E d \in Docs : Begin(t, d)) \/ Done
Spec == Init /\ [][Next]_vars

Distinct == \A i, j \in 1..Len(log) : \A a \in 1..Len(log[i].names), b \in 1..Len(log[j].names) :
              log[i].names[a] = log[j].names[b] => i = j /\ a = b
Complete == \A i \in 1..Len(log) : Len(log[i].names) = Parts[log[i].d]
=============================================================================
