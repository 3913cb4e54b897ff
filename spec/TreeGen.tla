------------------------------- MODULE TreeGen --------------------------------
(* Data sets, edge weights and constraints for spanning-tree learning.           *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxD, MaxRows
VARIABLES c
P(S) == {RandomElement(S)}
Pairs(d) == {<<a, b>> \in (0..(d - 1)) \X (0..(d - 1)) : a < b}
Init == c = <<>>
Next ==
  /\ c = <<>>
  /\ \E what \in P({"mst", "topk", "mi", "fit", "hclt"}), d \in P({1, 2, 3, 4, 4, 4, 5, MaxD}), rows \in P(2..MaxRows),
        K \in P({2, 2, 3, 4}), k \in P({1, 1, 2, 3, 5, 16, 20}), wk \in P({"none", "none", "pos", "zero", "one", "small"}),
        pc \in P({"0", "0.5", "1", "4"}), shape \in P({"rand", "rand", "copy", "const", "chain", "skew", "star", "star"}),
        wmax \in P({1, 3, 100}), max \in P(BOOLEAN), sgn \in P(BOOLEAN), H \in P({1, 2, 3}), init \in P({"uniform", "random"}), seed \in P(1..100000) :
       \E ni \in P(0..2), ne \in P(0..3) :
       \E inc \in P([1..ni -> Pairs(IF d < 2 THEN 2 ELSE d)]), exc \in P([1..ne -> Pairs(IF d < 2 THEN 2 ELSE d)]) :
         c' = <<[what |-> what, d |-> d, rows |-> rows, K |-> K, k |-> k, wk |-> wk, pc |-> pc, shape |-> shape, wmax |-> wmax,
                 max |-> max, sgn |-> sgn, H |-> H, init |-> init, inc |-> inc, exc |-> exc, seed |-> seed]>>
Spec == Init /\ [][Next]_c
Emit == c # <<>> => PrintT("HIST " \o ToJson(c))
===============================================================================
