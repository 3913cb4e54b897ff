------------------------------- MODULE BuildGen -------------------------------
(* Parameter combinations of the architecture builders, mostly admissible.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Kinds
VARIABLES job
P(S) == {RandomElement(S)}
\* z: which parameter, if any, is made inadmissible
\* the leaf modules cover vars variables, in nl modules, with ch channels and reps repetitions each
Pick(k, z) ==
  \E vars \in P(1..6), nl \in P(1..3), ch \in P(1..3), reps \in P(1..3), depth \in P({0, 1, 1, 2, 2, 3}), roots \in P(1..3), inner \in P(1..3),
     outer \in P(BOOLEAN), split \in P({"none", "cons", "int"}), layer \in P({"einsum", "linsum"}), bottom \in P(BOOLEAN),
     side \in P({1, 2, 2, 3, 4}), ks \in P({1, 2, 2, 3}), sc \in P(BOOLEAN), dist \in P(1..5), pr \in P(1..4), perm \in P(1..24) :
    LET needs == IF k = "rat" THEN 2 ELSE 1
        d0 == IF k \in {"rat", "conv"} THEN (IF depth = 0 THEN 1 ELSE depth) ELSE depth
        v0 == IF k \in {"rat", "einet"} /\ vars < 2 ^ d0 THEN 2 ^ d0 + (vars % 3) ELSE vars
        v1 == IF k = "conv" THEN side * side ELSE v0
        r1 == IF k \in {"conv", "naive"} THEN 1 ELSE reps
        c1 == IF k = "naive" THEN roots ELSE ch
    IN job' = [kind |-> k, z |-> z,
               vars |-> IF z = 1 /\ k # "naive" THEN (IF k = "conv" THEN v1 + 1 ELSE (2 ^ d0) - 1) ELSE v1,
               nl |-> IF k = "conv" THEN 1 ELSE nl,
               ch |-> IF z = 2 THEN ch + 1 ELSE c1,           \* last leaf module only, when there are several
               c0 |-> c1,
               overlap |-> (z = 3), lreps |-> IF z = 4 THEN reps + 1 ELSE r1, reps |-> IF z = 5 THEN 0 ELSE IF z = 11 THEN 2 ELSE r1,
               depth |-> IF z = 6 THEN (IF k = "einet" THEN 0 - 1 ELSE 0) ELSE d0,
               roots |-> IF z = 7 THEN 0 ELSE roots, inner |-> IF z = 8 THEN 0 ELSE inner,
               outer |-> outer, split |-> split, nsplits |-> IF z = 9 THEN (IF ks = 1 THEN 1 ELSE 3) ELSE 2,
               layer |-> IF z = 10 THEN "sum" ELSE layer, bottom |-> bottom, h |-> side, w |-> IF z = 9 THEN side + 1 ELSE side,
               ks |-> IF z = 10 THEN 0 ELSE ks, sumconv |-> sc, dist |-> dist, prior |-> IF z = 12 THEN 5 + (pr % 3) ELSE pr, perm |-> perm]
Init == job = [kind |-> "none"]
Next == job.kind = "none" /\ \E k \in P(Kinds), b \in P(1..10), z \in P(1..12) : Pick(k, IF b <= 4 THEN z ELSE 0)
Spec == Init /\ [][Next]_job
Emit == job.kind # "none" => PrintT("HIST " \o ToJson(job))
===============================================================================
