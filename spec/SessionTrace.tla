---------------------------- MODULE SessionTrace ----------------------------
(* Recorded lives of real printer contexts, call by call.                    *)
(* Mode "layout": every returned text has to be the one the specification    *)
(* gives at that point.                                                      *)
(* Mode "state": every returned text has to be the one a fresh context with  *)
(* the settings in force returned; which settings those are, and the edge    *)
(* operator remembered, is what the specification says.                      *)
EXTENDS Session, Json, IOUtils, CSV

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, i, ok
Rec == Recs[id]
Op == Rec.ops[i]

Init == /\ id \in 1..Len(Recs)
        /\ i = 1 /\ ok = TRUE
        /\ SessionInit(IF Recs[id].new.made
                       THEN NewS(Recs[id].new.semi, Recs[id].new.step, Recs[id].new.ls, Recs[id].new.size)
                       ELSE DefaultS)

Is(name) == i <= Len(Rec.ops) /\ Op.op = name /\ i' = i + 1 /\ UNCHANGED id
Layout_ == IOEnv.MODE = "layout"
Checked == ok' = (Op.res = "ok" /\ IF Layout_ THEN text' = Op.text ELSE Op.text = Op.fresh)
(* the harness made the fresh context with the right settings *)
FreshOK == IF Layout_ THEN TRUE
           ELSE IF Op.set = S /\ Op.di = di THEN TRUE
           ELSE Assert(FALSE, <<"HARNESS", id, i, S, di, Op.set>>)
Quiet_ == text' = <<>> /\ UNCHANGED S
Setter == ok' = TRUE

TInline  == Is("inline") /\ AlwaysInline /\ Setter
TLineSep == Is("sep") /\ WithLineSep(Op.ls) /\ Setter
TSemi    == Is("semi") /\ WithSemi /\ Setter
TMulti   == Is("multi") /\ WithMulti /\ Setter
TNoComma == Is("nocomma") /\ WithNoComma /\ Setter
TStep    == Is("step") /\ WithStep(Op.n) /\ Setter
TSize    == Is("size") /\ WithSize(Op.n) /\ Setter
TPrinter == Is("printer") /\ WithPrinter(Op.id, Op.tag) /\ Setter
TGraph   == /\ Is("graph") /\ FreshOK
            /\ IF Layout_ THEN PrintGraph(Op.x) ELSE Quiet_ /\ di' = Op.x.di
            /\ Checked
TElem    == /\ Is("elem") /\ FreshOK
            /\ IF Layout_ THEN PrintElem(Op.x) ELSE Quiet_ /\ UNCHANGED di
            /\ Checked
Done == /\ i > Len(Rec.ops) /\ i < 1000000
        /\ i' = 1000000 /\ CSVWrite("%1$s,done", <<id>>, IOEnv.OUT)
        /\ UNCHANGED <<S, di, text, id, ok>>
End == i = 1000000 /\ UNCHANGED <<S, di, text, id, i, ok>>

Next == TInline \/ TLineSep \/ TSemi \/ TMulti \/ TNoComma \/ TStep \/ TSize \/ TPrinter \/ TGraph \/ TElem \/ Done \/ End
vars == <<S, di, text, id, i, ok>>
Spec == Init /\ [][Next]_vars

Conforms == ok
Alias == [rec |-> id, call |-> i - 1, settings |-> S, expected |-> text,
          recorded |-> IF ok THEN <<>> ELSE Rec.ops[i - 1].text]
=============================================================================
