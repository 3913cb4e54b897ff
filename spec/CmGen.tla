-------------------------------- MODULE CmGen ---------------------------------
(* Jobs of the continuous-mixture learners: shape of the data, options of the  *)
(* training run and of the optimisation of the integration points.             *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxEpochs
VARIABLES z, job
P(S) == {RandomElement(S)}
Leaves == <<"bernoulli", "categorical", "normal", "cltbin", "cltcat", "bernoulli", "cltcat">>
Lrs == <<"0.000001", "0.00001", "0.002", "0.005", "0.01", "0.02", "0.05", "0.1">>
Init == z = 0 /\ job = <<>>
Next == z = 0 /\ z' = 1 /\
  \E lf \in P(1..Len(Leaves)), nv \in P(1..4), rows \in P(3..8), k \in P(2..4), lat \in P(1..3), pt \in P({1, 2, 4, 5}), pe \in P({1, 2, 3, 4}),
     samepe \in P(1..3), ep \in P(3..MaxEpochs), bs \in P(1..4), lr \in P(1..Len(Lrs)), seed \in P(0..9999), val \in P(1..3), pat \in P(0..3),
     miss \in P(1..3), f32 \in P(1..5), lo \in P(1..3), lopts \in P(1..4), loep \in P(2..5), lobs \in P(1..3), lopat \in P(0..2), lolr \in P(1..Len(Lrs)) :
       LET l == Leaves[lf] IN
       job' = [leaf |-> l, nv |-> IF l \in {"cltbin", "cltcat"} /\ nv < 2 THEN 2 ELSE nv, rows |-> IF l \in {"cltbin", "cltcat"} THEN rows + 1 ELSE rows,
               k |-> k, latent |-> lat, train |-> pt, same |-> samepe = 1, points |-> IF samepe = 1 THEN pt ELSE pe, epochs |-> ep, batch |-> bs,
               lr |-> Lrs[lr], seed |-> seed, val |-> val = 1, valsize |-> bs, patience |-> pat, missing |-> miss = 1, f32 |-> f32 = 1,
               lo |-> lo = 1, lopoints |-> lopts, loepochs |-> loep, lobatch |-> lobs, lopatience |-> lopat, lolr |-> Lrs[lolr]]
Spec == Init /\ [][Next]_<<z, job>>
Emit == z = 1 => PrintT("HIST " \o ToJson(job))
===============================================================================
