------------------------------ MODULE BestEpoch -------------------------------
(* Early stopping.  Every epoch of a run yields a state and a score; the run  *)
(* keeps the best state so far and stops after `patience` epochs in a row      *)
(* without improvement (never, if patience is 0).  Scores are reals; two       *)
(* scores within eps are not told apart, so a near-tie may go either way.      *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE RealNum

(* the epochs whose state a run over the scores s may return *)
RECURSIVE Go(_, _, _, _, _, _)
Go(s, patience, eps, k, best, bad) ==
  IF k > Len(s) \/ (patience > 0 /\ bad >= patience) THEN {best}
  ELSE LET d == RSub(s[k], s[best])
           better == ~RLe(d, RNeg(eps)) /\ ~(REq(eps, "0") /\ RLe(d, "0"))
           worse == RLe(d, eps)
       IN (IF better THEN Go(s, patience, eps, k + 1, k, 0) ELSE {})
          \cup (IF worse THEN Go(s, patience, eps, k + 1, best, bad + 1) ELSE {})
Kept(s, patience, eps) == Go(s, patience, eps, 2, 1, 0)

(* the same when only the best state so far is visible after every number of   *)
(* epochs: b[k] is the score of the best of the first k states                  *)
RECURSIVE Last(_, _, _, _, _, _)
Last(b, patience, eps, k, best, bad) ==
  IF k > Len(b) \/ (patience > 0 /\ bad >= patience) THEN {best}
  ELSE LET up == ~RLe(RSub(b[k], b[k - 1]), RNeg(eps)) /\ ~(REq(eps, "0") /\ RLe(RSub(b[k], b[k - 1]), "0"))
           flat == RLe(RSub(b[k], b[k - 1]), eps)
       IN (IF up THEN Last(b, patience, eps, k + 1, k, 0) ELSE {})
          \cup (IF flat THEN Last(b, patience, eps, k + 1, best, bad + 1) ELSE {})
KeptOfBests(b, patience, eps) == Last(b, patience, eps, 2, 1, 0)
Monotone(b, eps) == \A k \in 2..Len(b) : RLe(b[k - 1], RAdd(b[k], eps))
===============================================================================
