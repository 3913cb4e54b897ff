------------------------------- MODULE ImageGen ------------------------------
(* Histories of calls on an image view: a size, a kind of circuit and a       *)
(* sequence of queries and removals; the size after each removal is the       *)
(* specification's.                                                            *)
EXTENDS ImageView, Integers, TLC, Json, Randomization
CONSTANTS MaxLen, MaxPixels
VARIABLES size, orig, kind, hist
P(S) == {RandomElement(S)}
Kinds == <<"vec", "each", "groups", "fact", "halves", "mixed", "joint", "shuffled">>
Ops == <<"ll", "ll", "smp", "evid", "mpe", "mpeev", "em", "marg", "marg", "marg">>
Init == /\ orig \in P({s \in (1..3) \X (1..4) \X (1..4) : s[1] * s[2] * s[3] <= MaxPixels /\ s[1] * s[2] * s[3] > 1})
        /\ size = orig
        /\ kind \in P(1..Len(Kinds))
        /\ hist = <<>>
Sub(n) == {xs \in SUBSET (0..n - 1) : Cardinality(xs) < n}
Some(n) == IF n = 1 THEN {{}} ELSE {{}} \cup Sub(n)
Step == \E o \in P(1..Len(Ops)) : \E cs \in P(Some(size[1])), hs \in P(Some(size[2])), ws \in P(Some(size[3])), all \in P(1..25) :
          LET c2 == IF all = 1 THEN 0..size[1] - 1 ELSE cs IN
          /\ hist' = Append(hist, [op |-> Ops[o], c |-> c2, h |-> hs, w |-> ws])
          /\ size' = IF Ops[o] = "marg" /\ all # 1 THEN NewSize(size, c2, hs, ws) ELSE size
          /\ UNCHANGED <<orig, kind>>
Next == Len(hist) < MaxLen /\ Step
Spec == Init /\ [][Next]_<<size, orig, kind, hist>>
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson([size |-> orig, kind |-> Kinds[kind], ops |-> hist]))
=============================================================================
