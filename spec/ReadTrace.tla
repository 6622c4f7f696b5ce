------------------------------ MODULE ReadTrace -----------------------------
(* Trace validation. Every record is one text that came into or out of the   *)
(* real code; the reader reads the same text, one chain of states per record,*)
(* and each event it emits has to be the recorded one.                       *)
(*                                                                           *)
(* Mode "graph":   a call of parse: text, outcome and returned graph. What   *)
(*                 the reader accepts has to be accepted with that graph.    *)
(* Mode "verdict": a call of parse: accepted or rejected as the reader does. *)
(* Mode "print":   a call of print: the graph and the returned text, which   *)
(*                 has to denote that graph.                                 *)
EXTENDS Integers, Sequences, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE
RecText(i) == Recs[i].doc

VARIABLES src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out
VARIABLES l,    \* events matched
          mis   \* an event differed

R == INSTANCE DotReader WITH Text <- RecText

Rec == Recs[src]

Init == /\ \E i \in 1..Len(Recs) : R!ReaderInit(i)
        /\ l = 0 /\ mis = FALSE

Same(evs, e, n) == n <= Len(evs) /\ evs[n] = e
Differs(e, n) == Mode # "verdict" /\ ~Same(Rec.ev, e, n)

Step == /\ R!ReaderNext
        /\ l' = l + Len(out')
        /\ mis' = (mis \/ (Rec.res = "ok" /\ \E i \in 1..Len(out') : Differs(out'[i], l + i)))
        \* one line per finished record, for the counts in the evidence
        /\ ctl' \in {"acc", "rej", "uns"} => CSVWrite("%1$s,%2$s", <<src, ctl'>>, IOEnv.OUT)
Done == R!Final /\ UNCHANGED <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, l, mis>>

Next == Step \/ Done

vars == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, l, mis>>
Spec == Init /\ [][Next]_vars

(* the call did what the specification says *)
Denoted == Rec.res = "ok" /\ ~mis /\ l = Len(Rec.ev)
Conforms ==
  /\ Rec.res \in {"ok", "err"}
  /\ CASE Mode = "graph"   -> ctl = "acc" => Denoted
       [] Mode = "verdict" -> (ctl = "acc" => Rec.res = "ok") /\ (ctl = "rej" => Rec.res = "err")
       [] Mode = "print"   -> Rec.res = "ok" /\ ctl \notin {"rej", "uns"} /\ (ctl = "acc" => Denoted)

TypeOK == /\ pos \in 1..(Len(Rec.doc) + 3)
          /\ nv >= 0 /\ dep >= 0 /\ Len(out) <= 1
Alias == [rec |-> src, at |-> pos, ctl |-> ctl, verdict |-> ctl, matched |-> l, mismatch |-> mis,
          emitted |-> out, recorded |-> IF Len(out) > 0 /\ l <= Len(Rec.ev) /\ l > 0 THEN <<Rec.ev[l]>> ELSE <<>>]
=============================================================================
