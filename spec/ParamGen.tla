------------------------------ MODULE ParamGen -------------------------------
(* Histories of parameter writes, reads and inference on the modules of a       *)
(* circuit.  k picks a module, x a property or fault variant.                    *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxLen
VARIABLES hist
P(S) == {RandomElement(S)}
Init == hist = <<>>
Faults == {"neg", "zero", "sum", "shape", "nan", "swap"}
Op == \E o \in P({"setw", "setw", "setlog", "setp", "setp", "badw", "badw", "badp", "scribble", "train", "eval", "read", "ll", "ll", "ll", "mpe", "jolt"}
                 \X {1}) :
      \E f \in P(Faults), k \in P(1..60), x \in P(1..12), g \in P(BOOLEAN) :
        hist' = Append(hist, [op |-> o[1], f |-> f, k |-> k, x |-> x, g |-> g])
Next == Len(hist) < MaxLen /\ Op
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
===============================================================================
