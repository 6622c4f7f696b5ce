------------------------------ MODULE AttrCases -----------------------------
(* Every use of every typed attribute. A case is made (key and value), then  *)
(* printed into a document, and the document is read by the reader: if the   *)
(* attribute comes back, it prints as valid DOT.                             *)
EXTENDS Catalogue, Json, IOUtils, CSV, TLC

Values == JsonDeserialize(IOEnv.CFG)   \* texts, nums, ints, pairs: values per type, as codes

Ascii == "\t !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf(c) == LET i == CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c IN IF i = 1 THEN 9 ELSE i + 30
CodeTable == TLCEval([c \in { SubSeq(Ascii, i, i) : i \in 1..Len(Ascii) } |-> CodeOf(c)])
Codes(s) == [i \in 1..Len(s) |-> CodeTable[SubSeq(s, i, i)]]

Bools == <<Codes("true"), Codes("false")>>
(* the variant of a spelling: some would be Rust keywords *)
Variant(e) == IF e = "box" THEN "box_" ELSE e

(* all uses: [how, fn, own, key, in, val] *)
Use(how, a, in, val) == [how |-> how, fn |-> a.fn, own |-> a.own, key |-> Codes(a.key), ty |-> a.ty, in |-> in, val |-> val]
(* values of an attribute *)
Count(a) == CASE a.ty = "text" -> Len(Values.texts) [] a.ty = "num" -> Len(Values.nums) [] a.ty = "int" -> Len(Values.ints)
              [] a.ty = "bool" -> 2 [] a.ty = "color" -> Len(Colours) [] OTHER -> Len(Spellings[a.ty])
Given(a, k) == CASE a.ty = "text" -> Values.texts[k] [] a.ty = "num" -> Values.nums[k] [] a.ty = "int" -> Values.ints[k]
                 [] a.ty = "bool" -> Bools[k] [] a.ty = "color" -> Codes(Colours[k])
                 [] OTHER -> Codes(Variant(Spellings[a.ty][k]))
Out(a, k) == IF a.ty \in DOMAIN Spellings THEN Codes(Spellings[a.ty][k]) ELSE Given(a, k)

VARIABLES src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out
VARIABLES use,   \* <<how, position in its table, position of the value>>
          back   \* the attribute as it was read
Self(s) == s
R == INSTANCE DotReader WITH Text <- Self
vars == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, use, back>>

Pair(k) == [fn |-> "margin_separate", key |-> "margin", ty |-> "pair", own |-> {"Node"}]
Case(u) ==
  CASE u[1] = "ctor" -> Use("ctor", Attrs[u[2]], Given(Attrs[u[2]], u[3]), Out(Attrs[u[2]], u[3]))
    [] u[1] = "type" -> Use("type", Attrs[u[2]], Given(Attrs[u[2]], u[3]), Out(Attrs[u[2]], u[3]))
    [] u[1] = "def"  -> Use("def", Attrs[u[2]], <<>>, Codes(Attrs[u[2]].def[1]))
    [] u[1] = "pair" -> Use("pair", Pair(u[3]), Values.pairs[u[3]][1] \o <<44>> \o Values.pairs[u[3]][2],
                            Values.pairs[u[3]][1] \o <<44>> \o Values.pairs[u[3]][2])
    [] u[1] = "derive" -> [how |-> "derive", fn |-> Derived[u[2]].fn, own |-> {""}, key |-> Codes(Derived[u[2]].fn), ty |-> "derived",
                           in |-> Codes(Derived[u[2]].vals[u[3]]), val |-> Codes(Derived[u[2]].out[u[3]])]
    [] u[1] = "colour" -> [how |-> "colour", fn |-> "color_name", own |-> {""}, key |-> Codes("color"), ty |-> "color",
                           in |-> Codes(Colours[u[3]]), val |-> Codes(Colours[u[3]])]

(* the document: an attribute list of a node *)
Pre == Codes("graph{a[")
Suf == Codes("]}")
Text(c) == Pre \o c.key \o Codes("=") \o c.val \o Suf

Init == /\ \/ \E a \in 1..Len(Attrs) : \E k \in 1..Count(Attrs[a]) :
                 \/ use = <<"ctor", a, k>>
                 \/ Attrs[a].ty \in DOMAIN Spellings /\ use = <<"type", a, k>>
           \/ \E a \in 1..Len(Attrs) : Attrs[a].def # <<>> /\ use = <<"def", a, 0>>
           \/ \E k \in 1..Len(Values.pairs) : use = <<"pair", 0, k>>
           \/ \E d \in 1..Len(Derived) : \E k \in 1..Len(Derived[d].vals) : use = <<"derive", d, k>>
           \/ \E k \in 1..Len(Colours) : use = <<"colour", 0, k>>
        /\ back = <<>>
        /\ R!ReaderInit(Text(Case(use)))

Step == /\ R!ReaderNext
        /\ back' = back \o out'
        /\ UNCHANGED use
Valid == /\ ctl = "acc" /\ Len(back) = 5 /\ back[3].o = "attr"
         /\ back[3].a.k = "p" /\ back[3].a.t = Case(use).key /\ back[3].b.t = Case(use).val
Write == /\ R!Final /\ use[1] # "done"
         /\ CSVWrite("%1$s", <<ToJson([case |-> Case(use), valid |-> Valid])>>, IOEnv.OUT)
         /\ use' = <<"done", 0, 0>>
         /\ UNCHANGED <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out, back>>
Done == use[1] = "done" /\ UNCHANGED vars
Next == Step \/ Write \/ Done
Spec == Init /\ [][Next]_vars

(* defaults, and values of other types than text, print as valid DOT, unless they are keywords *)
AlwaysValid == /\ (R!Final /\ use[1] \in {"ctor", "type", "colour"} /\ Case(use).ty # "text" /\ R!KeywordOf(Case(use).val) = "") => Valid
               /\ (R!Final /\ use[1] = "def" /\ R!KeywordOf(Case(use).val) = "") => Valid
=============================================================================
