------------------------------- MODULE TrainGen -------------------------------
(* Sequences of training calls on one model: what is asked of each call.         *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Len_, Long
VARIABLES hist
P(S) == {RandomElement(S)}
Epochs == <<1, 1, 2, 2, 3, 4, 5>> \o (IF Long THEN <<8, 11, 12, 21>> ELSE <<11>>)
Opts == <<"none", "none", "sgd", "sgd", "adam">>
Scheds == <<"default", "default", "step", "count">>
Init == hist = <<>>
Next == /\ Len(hist) < Len_
        /\ \E e \in P(1..Len(Epochs)), nb \in P({1, 2, 2, 3}), z \in P(1..12), nv \in P(1..2), hv \in P(BOOLEAN), cb \in P(1..4), ce \in P(1..3),
              o \in P(1..Len(Opts)), s \in P(1..Len(Scheds)), every \in P(1..3), cls \in P(1..3), custom \in P(1..4), form \in P(1..4),
              same \in P(BOOLEAN), pre \in P(1..4), bad \in P(1..6), subset \in P(1..4), x \in P(1..999) :
           hist' = Append(hist, [epochs |-> Epochs[e], nb |-> IF z = 1 THEN 0 ELSE IF Epochs[e] > 5 THEN 1 ELSE nb,
             nv |-> IF z = 2 THEN 0 ELSE nv, hasval |-> hv, bcb |-> cb # 1, ecb |-> ce # 1,
             opt |-> Opts[o], sched |-> IF Opts[o] = "none" THEN "default" ELSE Scheds[s], every |-> every, cls |-> cls # 1, custom |-> custom = 1,
             form |-> form, same |-> same, pre |-> pre, bad |-> bad, subset |-> subset = 1, x |-> x])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Len_ => PrintT("HIST " \o ToJson(hist))
===============================================================================
