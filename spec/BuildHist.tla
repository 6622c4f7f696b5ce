------------------------------ MODULE BuildHist -----------------------------
(* Histories of building by hand: a graph and a subgraph grow by the add     *)
(* functions, the subgraph is put into the graph, copies are taken. A copy   *)
(* never changes, an addition appends one statement and changes nothing      *)
(* else, and elements are equal exactly when all their parts are.            *)
EXTENDS Builder, Json, IOUtils, CSV, FiniteSets

Cfg == JsonDeserialize(IOEnv.CFG)   \* [stmts: pool of elements, len: longest history, pats: what is repeated in long ones, plen: how long these are]

VARIABLES g, sub, kept, ops, done,
          pat   \* the part that is repeated, <<>> in a history of any calls
vars == <<g, sub, kept, ops, done, pat>>

Plain(t) == IdV("p", t)
Starts == { GraphV(di, st, id, <<>>) : di \in BOOLEAN, st \in BOOLEAN, id \in {AnonId, Plain(<<103>>)} }
Init == /\ g \in Starts /\ sub = SubV(Plain(<<115>>), <<>>) /\ kept = <<>> /\ ops = <<>> /\ done = FALSE
        /\ \/ pat = <<>>
           \/ g.id = AnonId /\ pat \in { Cfg.pats[i] : i \in 1..Len(Cfg.pats) }

AddG(k) == g' = AddStmt(g, Cfg.stmts[k]) /\ UNCHANGED <<sub, kept>> /\ ops' = Append(ops, <<"g", k>>)
AddS(k) == sub' = AddStmt(sub, Cfg.stmts[k]) /\ UNCHANGED <<g, kept>> /\ ops' = Append(ops, <<"s", k>>)
Put     == g' = AddStmt(g, sub) /\ UNCHANGED <<sub, kept>> /\ ops' = Append(ops, <<"put", 0>>)
Keep    == kept' = Append(kept, g) /\ UNCHANGED <<g, sub>> /\ ops' = Append(ops, <<"keep", 0>>)
Stop    == /\ done' = TRUE /\ UNCHANGED <<g, sub, kept, ops>>
           /\ CSVWrite("%1$s", <<ToJson([start |-> [g EXCEPT !.body = <<>>], sub0 |-> [sub EXCEPT !.body = <<>>], ops |-> ops,
                                         g |-> g, sub |-> sub, kept |-> kept,
                                         same |-> [i \in 1..Len(kept) |-> kept[i] = g]])>>, IOEnv.OUT)
Turn == pat[1 + (Len(ops) % Len(pat))]
Next == /\ UNCHANGED pat
        /\ \/ /\ ~done /\ pat = <<>> /\ Len(ops) < Cfg.len /\ UNCHANGED done
              /\ \/ \E k \in 1..Len(Cfg.stmts) : AddG(k) \/ AddS(k)
                 \/ Put \/ Keep
           \/ /\ ~done /\ pat # <<>> /\ Len(ops) < Cfg.plen /\ UNCHANGED done
              /\ \/ Turn[1] = "g" /\ AddG(Turn[2])
                 \/ Turn[1] = "s" /\ AddS(Turn[2])
                 \/ Turn[1] = "put" /\ Put
                 \/ Turn[1] = "keep" /\ Keep
           \/ ~done /\ ((pat = <<>> /\ ops # <<>>) \/ Len(ops) = Cfg.plen) /\ Stop
           \/ done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Grows == [][ /\ \E n \in {0, 1} : Len(g'.body) = Len(g.body) + n
             /\ SubSeq(g'.body, 1, Len(g.body)) = g.body
             /\ [g' EXCEPT !.body = <<>>] = [g EXCEPT !.body = <<>>]
             /\ SubSeq(sub'.body, 1, Len(sub.body)) = sub.body
             /\ SubSeq(kept', 1, Len(kept)) = kept ]_vars
=============================================================================
