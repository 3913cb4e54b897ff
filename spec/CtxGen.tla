-------------------------------- MODULE CtxGen --------------------------------
(* Histories of routing-context operations.  Arguments are described by their   *)
(* shape and fault; the replay driver fills in numbers.                          *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxLen
VARIABLES hist, n
vars == <<hist, n>>
P(S) == {RandomElement(S)}
Init == hist = <<>> /\ n = 0
Fault == {"ok", "ok", "ok"} \cup {"ok", "dtype", "rank", "batch", "width", "device", "none"}
(* fault-free half of the time *)
F == IF RandomElement(1..2) = 1 THEN {"ok"} ELSE Fault
Log(r) == hist' = Append(hist, r)
Op(o) == [op |-> o, k |-> RandomElement(1..(IF n = 0 THEN 1 ELSE n)), w |-> RandomElement(1..6), b |-> RandomElement(1..3), c |-> RandomElement(1..4),
          r |-> RandomElement(1..3), fc |-> RandomElement(F), fm |-> RandomElement(F), fr |-> RandomElement(F), x |-> RandomElement(0..5)]
New == n < 5 /\ n' = n + 1 /\ Log(Op("new"))
Fork == n \in 1..4 /\ n' = n + 1 /\ \E o \in P({"copy", "with_routing"}) : Log(Op(o))
Ops == {"update", "set_ci", "set_mask", "set_rep", "strict", "share_rep", "share_chan", "require", "broadcast", "repeat_split",
        "scatter", "slice", "route", "validate", "rows"}
Use == n > 0 /\ n' = n /\ \E o \in P(Ops) : Log(Op(o))
Next == Len(hist) < MaxLen /\ (New \/ Fork \/ Use \/ Use \/ Use \/ Use \/ Use \/ Use)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
===============================================================================
