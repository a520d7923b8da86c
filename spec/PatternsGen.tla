---------------------------- MODULE PatternsGen -----------------------------
EXTENDS Patterns, Json
CONSTANTS Depth
VARIABLES hist, lay
FS == INSTANCE FileSeq
R(S) == {RandomElement(S)}
Chars == <<"a", "b", "c", "A", "_", ".", "1", "-", "/", "\\">>
Txt(n) == [i \in 1..n |-> Chars[IF RandomElement(1..3) = 1 THEN RandomElement(1..10) ELSE RandomElement(1..3)]]
Layer(n) == [name |-> Txt(RandomElement(1..4)), attr |-> Txt(RandomElement(1..4))]
\* a pattern made from a text by generalising some of its characters
Gen1(c) == LET k == RandomElement(1..12) IN
   CASE k <= 6 -> <<Lit(c)>> [] k = 7 -> <<One>> [] k = 8 -> <<Star>> [] k = 9 -> <<Star, Lit(c)>>
     [] k = 10 -> <<InSet(<<c, RandomElement({"a","b"})>>, FALSE)>> [] k = 11 -> <<InSet(<<RandomElement({"a","b","c"}), "A">>, TRUE)>>
     [] k = 12 -> <<>>
RECURSIVE Generalise(_)
Generalise(t) == IF t = <<>> THEN (IF RandomElement(1..5) = 1 THEN <<Star>> ELSE <<>>) ELSE Gen1(Head(t)) \o Generalise(Tail(t))
\* sets cannot hold these characters unambiguously
Plain(p) == \A i \in DOMAIN p : p[i].t = "set" => \A j \in DOMAIN p[i].cs : p[i].cs[j] \in {"a", "b", "c", "A", "_", "1"}
Toks0(l) == LET k == RandomElement(1..6) IN
   CASE k <= 3 -> Generalise(l.attr) [] k <= 5 -> Generalise(l.name) \o <<Lit(":")>> \o Generalise(l.attr) [] k = 6 -> <<Star>>
Render1(x) == CASE x.t = "lit" -> x.c [] x.t = "one" -> "?" [] x.t = "any" -> "*"
   [] x.t = "set" -> "[" \o (IF x.neg THEN "!" ELSE "") \o x.cs[1] \o (IF Len(x.cs) > 1 THEN x.cs[2] ELSE "") \o "]"
RECURSIVE RenderT(_)
RenderT(p) == IF p = <<>> THEN "" ELSE Render1(Head(p)) \o RenderT(Tail(p))
Render(e) == (IF e.neg THEN (IF Len(e.toks) % 2 = 0 THEN "-" ELSE "^") ELSE "") \o RenderT(e.toks)
\* usable: not empty and, as an inclusion, not starting like an exclusion
Usable(e) == e.toks # <<>> /\ Plain(e.toks) /\ (~e.neg => e.toks[1] \notin {Lit("-")})
RECURSIVE Str(_)
Str(t) == IF t = <<>> THEN "" ELSE Head(t) \o Str(Tail(t))
\* ---- sequence strings, mostly well formed
SeqStr(nn) == LET k == RandomElement(1..14)
              base == CASE RandomElement(1..4) = 1 -> <<"f", "2", ".">> [] RandomElement(1..4) = 2 -> <<"d", "/", "x">> [] RandomElement(1..4) = 3 -> <<"a", "-">> [] OTHER -> <<"b", ".">>
              a == RandomElement(0..120) s == IF RandomElement(1..4) = 1 THEN <<"0">> \o FS!Dec(a) ELSE FS!Dec(a) e == FS!Dec(a + RandomElement(0..12)) m == <<RandomElement({"#", "@"})>> ext == RandomElement({<<".","f","3","d">>, <<>>, <<"_","1",".","f","3","d">>, <<"-","7">>}) IN
   CASE k <= 8 -> base \o s \o <<"-">> \o e \o m \o ext
     [] k = 9 -> base \o s \o <<"-">> \o m \o ext                \* no end
     [] k = 10 -> base \o <<"-">> \o e \o m \o ext               \* no start
     [] k = 11 -> base \o s \o <<"-">> \o e \o m \o ext \o m     \* two marks
     [] k = 12 -> base \o s \o <<"_">> \o e \o m \o ext          \* no range
     [] k = 13 -> RandomElement({<<"-">> \o e \o m \o ext, m \o ext, e \o m \o ext, <<"x">> \o ext, m, m \o base})
     [] k = 14 -> base \o FS!Dec(a + 5) \o <<"-">> \o FS!Dec(a) \o m \o ext   \* empty range
vars == <<list, hist, lay>>
GInit == Init /\ hist = <<>> /\ lay = <<>>
Start == \E n \in R(4..9) : LET ls == [i \in 1..n |-> Layer(i)] IN \E l \in {ls} : lay' = l /\ UNCHANGED list /\ hist' = <<[n |-> "Layers", layers |-> TLCEval([i \in DOMAIN l |-> [name |-> Str(l[i].name), attr |-> Str(l[i].attr)]])]>>
AddP == \E i \in R(DOMAIN lay), ng \in R({TRUE, FALSE, FALSE}) : \E tk \in {Toks0(lay[i])} : LET e0 == [neg |-> ng, toks |-> tk] e == IF Usable(e0) THEN e0 ELSE [neg |-> ng, toks |-> <<Lit("a"), Star>>] IN
   /\ Add(e) /\ UNCHANGED lay
   /\ hist' = Append(hist, [n |-> "Pattern", p |-> Render(e), na |-> TLCEval([j \in DOMAIN lay |-> SelNA(Append(list, e), lay[j], TRUE)]), a |-> TLCEval([j \in DOMAIN lay |-> SelA(Append(list, e), lay[j].attr, TRUE)])])
Sq == \E t \in {SeqStr(Len(hist))} : UNCHANGED <<list, lay>> /\ hist' = Append(hist, [n |-> "Sequence", s |-> Str(t), names |-> FS!Expand(t)])
GNext == Len(hist) < Depth /\ IF Len(hist) = 0 THEN Start ELSE IF Len(hist) % 3 = 0 THEN Sq ELSE AddP
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
