-------------------------------- MODULE DslGen --------------------------------
(* Circuit expressions, one operator application per step.  An expression may   *)
(* be used as operand any number of times.  Most steps combine operands that    *)
(* fit (disjoint scopes under "*", equal scopes under "+"); some do not.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS MaxLen
VARIABLES hist, info   \* info[i] = [k, s, n, f]: kind of expression, scope, number of mixture terms and of factors
P(S) == {RandomElement(S)}
\* the term pool: scope of each module the harness creates (7, 8, 9: two channels, two repetitions, several features)
Pool == <<{0}, {0}, {1}, {1}, {2}, {2}, {0}, {1}, {0, 1}, {0, 1}, {1, 2}, {3}, {3}>>
Good == {1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13}
Weights == <<"0.5", "2", "0.25", "3", "1", "0.1", "0.75", "1e-3">>
BadW == <<"0", "-1", "inf", "nan", "-0.5">>
Ix == DOMAIN info
Val(i) == info[i].k \in {"m", "p", "s"}
MulOk == {q \in Ix \X Ix : Val(q[2]) /\ info[q[1]].k # "bad" /\ info[q[1]].s \cap info[q[2]].s = {}}
AddOk == {q \in Ix \X Ix : info[q[1]].k \in {"w", "s"} /\ info[q[2]].k \in {"w", "s"} /\ info[q[1]].s = info[q[2]].s
                           /\ info[q[1]].n + info[q[2]].n <= 5}
AddAny == {q \in Ix \X Ix : info[q[1]].k \in {"w", "s"} /\ info[q[2]].k \in {"w", "s"}}
ScaleOk == {i \in Ix : Val(i)}
\* operand pairs that make deep expressions: mixtures of several terms on either side, long products, weighted right operands
AddBig == {q \in AddOk : info[q[1]].n + info[q[2]].n > 2}
AddLeft == {q \in AddBig : info[q[2]].n > 1}
MulBig == {q \in MulOk : info[q[1]].f + info[q[2]].f > 2}
MulW == {q \in Ix \X Ix : Val(q[1]) /\ info[q[2]].k = "w" /\ info[q[1]].s \cap info[q[2]].s = {}}
ScaleBig == {i \in Ix : Val(i) /\ info[i].f > 1}
Or(A, B) == IF A # {} THEN A ELSE B
Push(h, i) == hist' = Append(hist, h) /\ info' = Append(info, i)
Term == \E z \in P(1..12), g \in P(Good), b \in P(1..Len(Pool)), v \in P(1..3) :
          LET p == IF z <= 2 THEN b ELSE g IN
          Push([op |-> "term", p |-> p, v |-> v], [k |-> "m", s |-> Pool[p], n |-> 0, f |-> 1])
Mul == \E z \in P(1..8), v \in P(1..4) : \E q \in P(IF z = 1 THEN Ix \X Ix ELSE Or(CASE z < 4 -> MulBig [] z < 6 -> MulW [] OTHER -> MulOk, Or(MulOk, Ix \X Ix))) :
         Push([op |-> "mul", a |-> q[1], b |-> q[2], v |-> v],
              [k |-> IF info[q[1]].k = "w" THEN "w" ELSE IF Val(q[2]) THEN "p" ELSE "bad", s |-> info[q[1]].s \cup info[q[2]].s, n |-> 1,
               f |-> IF info[q[1]].k = "p" THEN info[q[1]].f + 1 ELSE 2])
Scale == \E z \in P(1..10), w \in P(1..Len(Weights)), bw \in P(1..Len(BadW)), v \in P(1..4) :
           \E i \in P(IF z = 1 THEN Ix ELSE Or(IF z < 5 THEN ScaleBig ELSE ScaleOk, Or(ScaleOk, Ix))) :
             Push([op |-> "scale", a |-> i, w |-> IF z = 2 THEN BadW[bw] ELSE Weights[w], v |-> v],
                  [k |-> IF z = 2 THEN "bad" ELSE "w", s |-> info[i].s, n |-> 1, f |-> info[i].f])
Add == \E z \in P(1..8), v \in P(1..4) : \E q \in P(IF z = 1 THEN Ix \X Ix ELSE Or(CASE z = 2 -> AddAny [] z < 5 -> AddLeft [] z < 7 -> AddBig [] OTHER -> AddOk, Or(AddOk, Ix \X Ix))) :
         Push([op |-> "add", a |-> q[1], b |-> q[2], v |-> v],
              [k |-> IF {info[q[1]].k, info[q[2]].k} \subseteq {"w", "s"} THEN "s" ELSE "bad",
               s |-> info[q[1]].s \cup info[q[2]].s, n |-> info[q[1]].n + info[q[2]].n, f |-> 1])
Init == hist = <<>> /\ info = <<>>
Next == /\ Len(hist) < MaxLen
        /\ IF Len(hist) < 4 THEN Term
           ELSE \E c \in P(1..20) : CASE c <= 3 -> Term [] c <= 8 -> Mul [] c <= 14 -> Scale [] OTHER -> Add
Spec == Init /\ [][Next]_<<hist, info>>
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
===============================================================================
