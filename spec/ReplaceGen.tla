------------------------------- MODULE ReplaceGen ------------------------------
(* Nested blocks that replace methods, calls in between, normal and exceptional exits. *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Methods, MaxLen
VARIABLES hist, open
P(S) == {RandomElement(S)}
Init == hist = <<>> /\ open = 0
Enter == \E m \in P(1..Methods), k \in P(1..5) : hist' = Append(hist, [op |-> "enter", m |-> m, k |-> k]) /\ open' = open + 1
Exit == open > 0 /\ hist' = Append(hist, [op |-> "exit", n |-> 1, how |-> "end"]) /\ open' = open - 1
Raise == open > 0 /\ \E n \in P(1..open) : hist' = Append(hist, [op |-> "exit", n |-> n, how |-> "raise"]) /\ open' = open - n
Return == open > 0 /\ hist' = Append(hist, [op |-> "exit", n |-> open, how |-> "close"]) /\ open' = 0
Call == \E m \in P(1..Methods) : hist' = Append(hist, [op |-> "call", m |-> m]) /\ UNCHANGED open
Step == \E r \in P(1..9) : CASE r \in 1..3 -> Enter [] r = 4 -> (IF open > 0 THEN Exit ELSE Enter) [] r = 5 -> (IF open > 0 THEN Raise ELSE Call)
                             [] r = 6 -> (IF open > 0 THEN Return ELSE Call) [] OTHER -> Call
Next == \/ Len(hist) < MaxLen /\ Step
        \/ Len(hist) = MaxLen /\ open > 0 /\ Return
Spec == Init /\ [][Next]_<<hist, open>>
Emit == (Len(hist) >= MaxLen /\ open = 0) => PrintT("HIST " \o ToJson(hist))
===============================================================================
