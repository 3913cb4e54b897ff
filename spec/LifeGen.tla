------------------------------- MODULE LifeGen -------------------------------
(* Histories over a growing family of models: the first one, its copies, models *)
(* restored from files and state dictionaries, rebuilt ones.  i, j pick models,  *)
(* x a variant.                                                                  *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxLen
VARIABLES hist
P(S) == {RandomElement(S)}
Init == hist = <<>>
Ops == <<"ll", "ll", "ll", "ll", "mode", "mode", "copy", "copy", "file", "step", "step", "step", "load", "snap", "restore", "fresh", "mpe", "look">>
Op == \E o \in P(1..Len(Ops)), i \in P(1..12), j \in P(1..12), x \in P(1..24), g \in P(BOOLEAN) :
        hist' = Append(hist, [op |-> Ops[o], i |-> i, j |-> j, x |-> x, g |-> g])
Next == Len(hist) < MaxLen /\ Op
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
===============================================================================
