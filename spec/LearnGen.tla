------------------------------- MODULE LearnGen -------------------------------
(* Configurations of the structure learners: what is learned, by which          *)
(* thresholds, and how the clustering and partitioning procedures behave.       *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Algs, MaxRows
VARIABLES c
P(S) == {RandomElement(S)}
Init == c = <<>>
Next ==
  /\ c = <<>>
  /\ \E alg \in P(Algs), nv \in P({1, 2, 3, 3, 4, 5}), rows \in P(1..MaxRows), fam \in P({"disc", "disc", "cont", "mixed"}),
        perm \in P(1..6), sub \in P(BOOLEAN), parts \in P({1, 1, 2}), oc \in P({1, 1, 2, 3}), loc \in P({1, 1, 2, 3}),
        mi \in P({2, 2, 3, 5, 40}), mf \in P({2, 2, 3}), k \in P({1, 2, 3, 5}), split \in P(0..3), corr \in P(BOOLEAN), seed \in P(1..100000) :
       /\ (alg = "spn" => (loc <= oc \/ oc = 1))
       /\ c' = <<[alg |-> alg, nv |-> nv, rows |-> rows, fam |-> fam, perm |-> perm, sub |-> sub, parts |-> parts, oc |-> oc,
                  loc |-> loc, mi |-> mi, mf |-> mf, k |-> k, split |-> split, corr |-> corr, seed |-> seed]>>
Spec == Init /\ [][Next]_c
Emit == c # <<>> => PrintT("HIST " \o ToJson(c))
===============================================================================
