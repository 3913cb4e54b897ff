------------------------------- MODULE ClassGen -------------------------------
(* Histories of a classifier: queries interleaved with everything that changes  *)
(* what the right answer is (fitting, new class weights, EM).                   *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Len_
VARIABLES hist
P(S) == {RandomElement(S)}
Queries == {"posterior", "predict", "proba", "wrapper", "labels", "density", "sample", "likelihood"}
Changes == {"weights", "fit", "em", "perturb"}
Init == hist = <<>>
Next == Len(hist) < Len_ /\ \E c \in P(1..3), q \in P(Queries), x \in P(Changes), a \in P(1..1000) :
          hist' = Append(hist, IF c = 1 THEN [op |-> x, a |-> a] ELSE [op |-> q, a |-> a])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len_ => PrintT("HIST " \o ToJson(hist))
===============================================================================
