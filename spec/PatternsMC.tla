----------------------------- MODULE PatternsMC -----------------------------
EXTENDS Patterns
Txt == {<<"a">>, <<"b">>, <<"a","b">>}
MCLayers == [name : Txt, attr : Txt]
MCToks == {<<Star>>, <<Lit("a")>>, <<One>>, <<One, Star>>, <<Lit("a"), Star>>, <<Star, Lit("b")>>, <<InSet(<<"a">>, TRUE)>>, <<Lit("a"), Lit(":"), Star>>, <<Star, Lit(":"), Lit("b")>>}
MCNext == Len(list) < 3 /\ \E p \in MCToks, n \in {TRUE, FALSE} : Add([neg |-> n, toks |-> p])
MCSpec == Init /\ [][MCNext]_list
=============================================================================
