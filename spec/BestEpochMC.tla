----------------------------- MODULE BestEpochMC ------------------------------
(* Exhaustive check of the early-stopping rule against the protocol run step   *)
(* by step over every score sequence.                                          *)
EXTENDS BestEpoch, TLC
LOCAL INSTANCE RealNum
CONSTANTS MaxLen, MaxScore, MaxPatience
VARIABLES scores, patience, k, best, bad, done
vars == <<scores, patience, k, best, bad, done>>
Num(i) == RInt(i)
Seqs == UNION {[1..n -> 0..MaxScore] : n \in 1..MaxLen}
Init == /\ scores \in Seqs
        /\ patience \in 0..MaxPatience
        /\ k = 0 /\ best = 0 /\ bad = 0 /\ done = FALSE
Epoch == /\ ~done /\ k < Len(scores)
         /\ k' = k + 1
         /\ IF best = 0 \/ scores[k'] > scores[best]
            THEN best' = k' /\ bad' = 0 /\ done' = FALSE
            ELSE best' = best /\ bad' = bad + 1 /\ done' = (patience > 0 /\ bad + 1 >= patience)
         /\ UNCHANGED <<scores, patience>>
Finish == ~done /\ k = Len(scores) /\ done' = TRUE /\ UNCHANGED <<scores, patience, k, best, bad>>
Next == Epoch \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

S == [i \in DOMAIN scores |-> Num(scores[i])]
RECURSIVE PrefixMax(_, _)
PrefixMax(s, i) == IF i = 1 THEN s[1] ELSE LET m == PrefixMax(s, i - 1) IN IF s[i] > m THEN s[i] ELSE m
B == [i \in DOMAIN scores |-> Num(PrefixMax(scores, i))]
(* the rule returns what the protocol returns *)
Rule == done => Kept(S, patience, "0") = {best}
(* and needs only the bests to do so *)
Bests == done => KeptOfBests(B, patience, "0") = {best} /\ Monotone(B, "0")
(* the state returned is the first best of those seen, and none seen before the stop is better *)
First == done => /\ \A i \in 1..k : scores[i] <= scores[best]
                 /\ \A i \in 1..best - 1 : scores[i] < scores[best]
(* without patience nothing is missed; with it, the run stops exactly `patience` epochs after the best *)
Stops == done => IF patience = 0 THEN k = Len(scores) ELSE k = Len(scores) \/ k = best + patience
(* tolerance only ever widens the answer *)
Wider == done => best \in Kept(S, patience, "0.5")
Terminates == <>done
===============================================================================
