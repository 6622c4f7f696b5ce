------------------------------ MODULE TripTrace -----------------------------
(* A graph that is saved and loaded again and again: mem is the graph in     *)
(* memory, disk the text last saved, seen every text saved so far with its   *)
(* settings. Loading gives the graph that was saved, and saving under        *)
(* settings used before gives the text it gave before.                       *)
EXTENDS Integers, Sequences, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, i, mem, disk, seen, ok
vars == <<id, i, mem, disk, seen, ok>>
Rec == Recs[id]
Op == Rec.ops[i]

Init == /\ id \in 1..Len(Recs)
        /\ i = 1 /\ mem = Recs[id].ev /\ disk = <<>> /\ seen = {} /\ ok = TRUE

Is(o) == i <= Len(Rec.ops) /\ Op.op = o /\ i' = i + 1 /\ UNCHANGED id

Save == /\ Is("save")
        /\ disk' = Op.text
        /\ seen' = seen \union {<<Op.set, Op.text>>}
        /\ ok' = (Op.res = "ok" /\ \A p \in seen : p[1] = Op.set => p[2] = Op.text)
        /\ UNCHANGED mem
(* eq: the loaded value equals the saved one by its own equality *)
Load == /\ Is("load")
        /\ mem' = Op.ev
        /\ ok' = (Op.res = "ok" /\ Op.ev = mem /\ Op.eq)
        /\ UNCHANGED <<disk, seen>>
Done == /\ i > Len(Rec.ops) /\ i < 1000000 /\ i' = 1000000
        /\ CSVWrite("%1$s,done", <<id>>, IOEnv.OUT)
        /\ UNCHANGED <<id, mem, disk, seen, ok>>
End == i = 1000000 /\ UNCHANGED vars
Next == Save \/ Load \/ Done \/ End
Spec == Init /\ [][Next]_vars

Conforms == ok
(* nothing but the settings decides the text *)
OneText == \A p, q \in seen : p[1] = q[1] => p[2] = q[2]
Alias == [rec |-> id, call |-> i - 1, mem |-> mem, disk |-> disk]
=============================================================================
