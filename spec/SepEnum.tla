------------------------------- MODULE SepEnum ------------------------------
(* Separators never change the result. A base is a list of slots; every slot *)
(* has alternatives (token lists) that mean the same, such as with and       *)
(* without a semicolon. A variant takes other alternatives at up to two      *)
(* slots and other texts at up to two gaps between tokens, before the first  *)
(* and after the last. TLC reads the plain text of the base, then the        *)
(* variant, and compares the events. Every variant is written out.           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

Cfg == JsonDeserialize(IOEnv.CFG)     \* [bases: seq of [slots], gaps: texts, ends: texts only possible at the end]
Self(s) == s

VARIABLES src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out
VARIABLES v,      \* the variant
          phase,  \* 1 reading the base, 2 reading the variant
          hist, ref
R == INSTANCE DotReader WITH Text <- Self
rv == <<src, pos, lx, beg, dep, tok, lastk, ctl, fr, nv, own, pid, prt, gf, out>>
vars == <<rv, v, phase, hist, ref>>

Base(b) == Cfg.bases[b]
RECURSIVE Flat(_, _, _)
(* tokens of base b with alternative al[i] at slot i *)
Flat(b, al, i) == IF i > Len(Base(b)) THEN <<>> ELSE Base(b)[i][al[i]] \o Flat(b, al, i + 1)

WordLike(c) == R!IsWordChar(c)
IsNumeral(t) == R!IsDigit(t[1]) \/ t[1] = 46 \/ (t[1] = 45 /\ Len(t) > 1 /\ t[2] \notin {45, 62})
(* may a and b stand next to each other *)
Glue(a, b) == IF a[1] \in {34, 60} THEN FALSE
              ELSE IF IsNumeral(a) THEN WordLike(b[1]) \/ b[1] = 46
              ELSE WordLike(a[Len(a)]) /\ WordLike(b[1])

(* gap g between tokens i and i+1; 0 is before the first, n after the last; default one blank *)
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ts, gp, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE ts[i] \o (IF i \in DOMAIN gp THEN gp[i] ELSE <<32>>) \o JoinFrom(ts, gp, i + 1)
TextOf(ts, gp) == (IF 0 \in DOMAIN gp THEN gp[0] ELSE <<>>) \o JoinFrom(ts, gp, 1)

GapText(n) == IF n <= Len(Cfg.gaps) THEN Cfg.gaps[n] ELSE Cfg.ends[n - Len(Cfg.gaps)]
GapsAt(ts, i) == IF i = Len(ts) THEN 1..(Len(Cfg.gaps) + Len(Cfg.ends)) ELSE 1..Len(Cfg.gaps)
Legal(ts, i, n) == ~(GapText(n) = <<>> /\ i > 0 /\ i < Len(ts) /\ Glue(ts[i], ts[i + 1]))

Ones(b) == [i \in 1..Len(Base(b)) |-> 1]
BaseToks(b) == Flat(b, Ones(b), 1)

(* variants: one gap; two gaps next to each other; one or two slots, with all gaps minimal or as usual;
   all gaps and slots alike *)
Init ==
  /\ \E b \in 1..Len(Cfg.bases) :
       LET ts == BaseToks(b) IN
       \/ \E i \in 0..Len(ts) : \E n \in GapsAt(ts, i) :
            Legal(ts, i, n) /\ v = [b |-> b, al |-> Ones(b), gp |-> <<<<i, n>>>>]
       \/ \E i \in 0..(Len(ts) - 1) : \E n \in GapsAt(ts, i) : \E m \in GapsAt(ts, i + 1) :
            /\ Cfg.pairs /\ Legal(ts, i, n) /\ Legal(ts, i + 1, m)
            /\ (i * 31 + n * 7 + m * 3 + b + Cfg.seed) % Cfg.every = 0
            /\ v = [b |-> b, al |-> Ones(b), gp |-> <<<<i, n>>, <<i + 1, m>>>>]
       \/ \E i, j \in 1..Len(Base(b)) : \E x \in 1..Len(Base(b)[i]), y \in 1..Len(Base(b)[j]) :
            \E k \in {-1, 1, 2} :
            /\ i <= j /\ (i = j => x = y)
            /\ v = [b |-> b, al |-> [Ones(b) EXCEPT ![i] = x, ![j] = y], gp |-> <<<<-1, k>>>>]
       \* the same text at every gap, with the m-th alternative at every slot
       \/ \E m \in 1..3 : \E n \in 1..Len(Cfg.gaps) :
            v = [b |-> b, al |-> [i \in 1..Len(Base(b)) |-> IF m <= Len(Base(b)[i]) THEN m ELSE Len(Base(b)[i])], gp |-> <<<<-1, 2 + n>>>>]
  /\ phase = 1 /\ hist = <<>> /\ ref = <<>>
  /\ R!ReaderInit(TextOf(TLCEval(BaseToks(v.b)), <<>>))

(* <<-1, k>>: k = -1 every gap is a blank, 1 as little as possible, 2 line ends,  *)
(* more the gap of that number, where it is not empty *)
GapFun(ts, gp) ==
  IF Len(gp) = 1 /\ gp[1][1] = -1
  THEN [i \in 0..Len(ts) |->
          IF gp[1][2] = -1 THEN <<32>>
          ELSE IF gp[1][2] = 2 THEN <<13, 10>>
          ELSE IF gp[1][2] > 2 /\ GapText(gp[1][2] - 2) # <<>> THEN GapText(gp[1][2] - 2)
          ELSE IF i > 0 /\ i < Len(ts) /\ Glue(ts[i], ts[i + 1]) THEN <<32>> ELSE <<>>]
  ELSE [i \in { gp[n][1] : n \in 1..Len(gp) } |-> GapText(gp[CHOOSE n \in 1..Len(gp) : gp[n][1] = i][2])]

Variant == LET ts == TLCEval(Flat(v.b, v.al, 1)) IN TextOf(ts, TLCEval(GapFun(ts, v.gp)))

DoRead == /\ ~R!Final /\ R!ReaderNext
          /\ hist' = hist \o out' /\ UNCHANGED <<v, phase, ref>>
          /\ (phase = 2 /\ ctl' = "acc") =>
               CSVWrite("%1$s", <<ToJson([v |-> ctl', doc |-> src, ev |-> hist'])>>, IOEnv.OUT)
Turn == /\ R!Final /\ phase = 1
        /\ phase' = 2 /\ ref' = hist /\ hist' = <<>> /\ UNCHANGED v
        /\ src' = Variant
        /\ pos' = 1 /\ lx' = "ws" /\ beg' = 1 /\ dep' = 0
        /\ tok' = R!NoTok /\ lastk' = "" /\ ctl' = "start" /\ fr' = <<>> /\ nv' = 0 /\ own' = ""
        /\ pid' = R!NoId /\ prt' = R!NoId /\ gf' = [strict |-> FALSE, di |-> FALSE] /\ out' = <<>>
Done == R!Final /\ phase = 2 /\ UNCHANGED vars
Next == DoRead \/ Turn \/ Done
Spec == Init /\ [][Next]_vars

(* the property *)
Invisible == /\ ctl \notin {"rej", "uns"}
             /\ (phase = 2 /\ ctl = "acc") => hist = ref
=============================================================================
