---------------------------- MODULE IterationMC2 ---------------------------
EXTENDS Iteration
MCInit == Init /\ box = [min |-> <<-1,0,2>>, max |-> <<0,0,3>>]
MCSpec == MCInit /\ [][Next]_<<box, it>>
=============================================================================
