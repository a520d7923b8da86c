------------------------------ MODULE Patterns ------------------------------
(* Selecting layers with a growing list of shell-style patterns. Text is a sequence of one-character strings; a
   pattern is a sequence of tokens; a list entry is an inclusion or an exclusion. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Layers                  \* [name, attr] pairs (text)
VARIABLES list                    \* the patterns so far: [neg |-> exclusion?, toks |-> tokens]
Lit(c) == [t |-> "lit", c |-> c]
One == [t |-> "one"]
Star == [t |-> "any"]
InSet(cs, neg) == [t |-> "set", cs |-> cs, neg |-> neg]
RECURSIVE Glob(_, _)
Glob(p, s) == IF p = <<>> THEN s = <<>>
  ELSE LET h == Head(p) IN
   CASE h.t = "any" -> Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
     [] h.t = "one" -> s # <<>> /\ Glob(Tail(p), Tail(s))
     [] h.t = "lit" -> s # <<>> /\ Head(s) = h.c /\ Glob(Tail(p), Tail(s))
     [] h.t = "set" -> s # <<>> /\ ((\E i \in DOMAIN h.cs : h.cs[i] = Head(s)) # h.neg) /\ Glob(Tail(p), Tail(s))
HasColon(p) == \E i \in DOMAIN p : p[i] = Lit(":")
FirstColon(p) == CHOOSE i \in DOMAIN p : p[i] = Lit(":") /\ \A j \in 1..(i-1) : p[j] # Lit(":")
\* against name and attribute: the attribute alone, unless the pattern names both
MatchesNA(p, l) == IF HasColon(p) THEN Glob(p, l.name \o <<":">> \o l.attr) ELSE Glob(p, l.attr)
\* against an attribute only: the part of the pattern after the name
MatchesA(p, a) == Glob(IF HasColon(p) THEN SubSeq(p, FirstColon(p) + 1, Len(p)) ELSE p, a)
SelNA(ls, l, emptyAll) == IF ls = <<>> THEN emptyAll ELSE (\E i \in DOMAIN ls : ~ls[i].neg /\ MatchesNA(ls[i].toks, l)) /\ ~\E i \in DOMAIN ls : ls[i].neg /\ MatchesNA(ls[i].toks, l)
SelA(ls, a, emptyAll) == IF ls = <<>> THEN emptyAll ELSE (\E i \in DOMAIN ls : ~ls[i].neg /\ MatchesA(ls[i].toks, a)) /\ ~\E i \in DOMAIN ls : ls[i].neg /\ MatchesA(ls[i].toks, a)
Init == list = <<>>
Add(e) == list' = Append(list, e)
Selected(ls) == {l \in Layers : SelNA(ls, l, TRUE)}
---------------------------------------------------------------------------
\* adding an inclusion never removes a layer, adding an exclusion never adds one (once the list is not empty)
Monotone == [][list # <<>> => IF list'[Len(list')].neg THEN Selected(list') \subseteq Selected(list) ELSE Selected(list) \subseteq Selected(list')]_list
\* an exclusion of everything selects nothing; order is irrelevant; everything is selected only by an inclusion
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == Selected(Reverse(list)) = Selected(list)
NoInclusionNothing == (list # <<>> /\ \A i \in DOMAIN list : list[i].neg) => Selected(list) = {}
AllExcluded == (\E i \in DOMAIN list : list[i].neg /\ list[i].toks = <<Star>>) => Selected(list) = {}
=============================================================================
