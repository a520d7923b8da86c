------------------------------ MODULE InterpMC ------------------------------
EXTENDS Interp
MCInit == /\ min = <<-1, 0, 2>> /\ mac \in {FALSE, TRUE}
          /\ res \in {<<2,1,1>>, <<1,2,1>>}
          /\ val = IF mac THEN [c \in 1..3 |-> [n \in 1..Prod(FaceRes(res, c)) |-> 0]] ELSE [n \in 1..Prod(res) |-> 0]
MCNext == \/ \E n \in 1..Prod(res), v \in Vals : Write(n, v)
          \/ \E c \in 1..3 : \E n \in 1..Prod(FaceRes(res, c)) : n <= 3 /\ WriteFace(c, n, 3)
MCSpec == MCInit /\ [][MCNext]_<<min, res, val, mac>>
Small == mac => Cardinality({<<c, n>> \in (1..3) \X (1..3) : n \in DOMAIN val[c] /\ val[c][n] = 3}) <= 2
=============================================================================
