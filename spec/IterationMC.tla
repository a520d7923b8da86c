---------------------------- MODULE IterationMC ----------------------------
EXTENDS Iteration
MCInit == Init /\ box \in {[min |-> m, max |-> Add3(m, d)] : m \in {<<0,0,0>>, <<-1,2,-3>>}, d \in {<<0,0,0>>, <<2,1,1>>, <<1,1,1>>, <<0,2,1>>}}
MCSpec == MCInit /\ [][Next]_<<box, it>>
=============================================================================
