--------------------------------- MODULE Wide --------------------------------
(* All characters above ASCII are of one class: whatever the reader asks of  *)
(* a character (but for a byte order mark at the beginning), the answer is   *)
(* the one it gets for the letter e with an acute accent.                    *)
EXTENDS DotChars

E_ACUTE == 233
Last == 1114111
Size == 4096

VARIABLE chunk
Init == chunk = 0
Next == \/ chunk * Size <= Last /\ chunk' = chunk + 1
        \/ chunk * Size > Last /\ UNCHANGED chunk
Spec == Init /\ [][Next]_chunk

Named == {NL, CR, TAB, SP, DQ, HASH, PLUS, COMMA, MINUS, DOT, SLASH, COLON, SEMI, LT, EQ, GT, LBR, BSL, RBR, UND, LCB, RCB, STAR, BANG}
Letters == { w[i] : w \in {K_graph, K_digraph, K_strict, K_subgraph, K_node, K_edge} \union CompassPoints, i \in {1} }
Asked(c) == <<IsDigit(c), IsLetter(c), IsWordChar(c), Lower(c) = c, c \in Named, c \in Letters>>
OneClass == \A c \in (chunk * Size)..((chunk + 1) * Size - 1) :
              c >= 128 /\ c <= Last => Asked(c) = Asked(E_ACUTE)
=============================================================================
