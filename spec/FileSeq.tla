------------------------------ MODULE FileSeq -------------------------------
(* What a frame-sequence string describes. Text is a sequence of one-character strings. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
IsMark(c) == c \in {"#", "@"}
RECURSIVE Num(_), Str(_), RunFrom(_, _), Dec(_)
Num(d) == IF d = <<>> THEN 0 ELSE Num(SubSeq(d, 1, Len(d)-1)) * 10 + DigitVal(d[Len(d)])
Str(t) == IF t = <<>> THEN "" ELSE Head(t) \o Str(Tail(t))
Dec(n) == IF n < 10 THEN <<Digits[n+1]>> ELSE Dec(n \div 10) \o <<Digits[(n % 10) + 1]>>
\* first index of the maximal run of digits that ends at k (k+1 if there is none)
RunFrom(t, k) == IF k = 0 \/ ~IsDigit(t[k]) THEN k + 1 ELSE RunFrom(t, k - 1)
Marks(t) == {i \in DOMAIN t : IsMark(t[i])}
None == <<>>
\* the described names; "unspecified" when nothing precedes the first frame number
Expand(t) ==
  IF Cardinality(Marks(t)) # 1 THEN None
  ELSE LET m == CHOOSE i \in Marks(t) : TRUE
           e == RunFrom(t, m - 1) IN
       IF e = m \/ e < 2 THEN None
       ELSE IF t[e-1] # "-" THEN None
       ELSE LET s == RunFrom(t, e - 2) IN
            IF s = e - 1 THEN None
            ELSE IF s = 1 THEN <<"unspecified">>
            ELSE LET a == Num(SubSeq(t, s, e-2)) b == Num(SubSeq(t, e, m-1)) base == Str(SubSeq(t, 1, s-1)) rest == Str(SubSeq(t, m+1, Len(t))) IN
                 IF b < a THEN None ELSE [i \in 1..(b - a + 1) |-> base \o Str(Dec(a + i - 1)) \o rest]
=============================================================================
