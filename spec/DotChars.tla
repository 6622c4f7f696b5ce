------------------------------ MODULE DotChars ------------------------------
(* Texts are sequences of Unicode code points. Character classes of the DOT *)
(* language, keywords, compass points, and a few helpers on texts.          *)
EXTENDS Integers, Sequences

NL == 10  CR == 13  TAB == 9  SP == 32
DQ == 34  HASH == 35  PLUS == 43  COMMA == 44  MINUS == 45  DOT == 46  SLASH == 47
COLON == 58  SEMI == 59  LT == 60  EQ == 61  GT == 62
LBR == 91  BSL == 92  RBR == 93  UND == 95  LCB == 123  RCB == 125  STAR == 42  BANG == 33

IsDigit(c)  == c >= 48 /\ c <= 57
IsLetter(c) == \/ c >= 97 /\ c <= 122
               \/ c >= 65 /\ c <= 90
               \/ c = UND
               \/ c >= 128
IsWordChar(c) == IsLetter(c) \/ IsDigit(c)

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerSeq(s) == [i \in DOMAIN s |-> Lower(s[i])]

K_graph    == <<103, 114, 97, 112, 104>>
K_digraph  == <<100, 105, 103, 114, 97, 112, 104>>
K_strict   == <<115, 116, 114, 105, 99, 116>>
K_subgraph == <<115, 117, 98, 103, 114, 97, 112, 104>>
K_node     == <<110, 111, 100, 101>>
K_edge     == <<101, 100, 103, 101>>

(* The keyword a word is, in any letter case; "" if it is none. *)
KeywordOf(s) ==
  IF Len(s) < 4 \/ Len(s) > 8 THEN ""
  ELSE LET w == LowerSeq(s) IN
       CASE w = K_graph    -> "graph"
         [] w = K_digraph  -> "digraph"
         [] w = K_strict   -> "strict"
         [] w = K_subgraph -> "subgraph"
         [] w = K_node     -> "node"
         [] w = K_edge     -> "edge"
         [] OTHER          -> ""

(* n ne e se s sw w nw c _ *)
CompassPoints == { <<110>>, <<110, 101>>, <<101>>, <<115, 101>>, <<115>>,
                   <<115, 119>>, <<119>>, <<110, 119>>, <<99>>, <<95>> }
IsCompass(s) == s \in CompassPoints

(* a quoted string whose content is a compass point *)
IsQuotedCompass(s) == Len(s) >= 3 /\ SubSeq(s, 2, Len(s) - 1) \in CompassPoints
=============================================================================
