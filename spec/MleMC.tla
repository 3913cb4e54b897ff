-------------------------------- MODULE MleMC --------------------------------
(* Design-level check of Mle.tla: over all small weighted samples, the closed *)
(* form (i) does not depend on the scale of the weights, (ii) treats an       *)
(* integer weight as repetition of the row, (iii) ignores rows of weight zero *)
(* and (iv) is at least as likely as nearby parameters.                       *)
EXTENDS Mle
CONSTANTS MaxRows, Vals, Wts
VARIABLES xs, ws
vars == <<xs, ws>>

Fams == {"bernoulli", "binomial", "categorical", "poisson", "geometric", "exponential", "normal",
         "log_normal", "negative_binomial"}
Old(d) == CASE d = "categorical" -> <<"0.2", "0.3", "0.5">>
            [] d \in {"binomial"} -> <<"3", "0.5">>
            [] d = "negative_binomial" -> <<"2", "0.5">>
            [] OTHER -> <<"1", "1">>
(* values as members of the family's support *)
Cv(d, x) == CASE d = "bernoulli" -> IF x = 0 THEN "0" ELSE "1"
              [] d \in {"exponential", "log_normal"} -> RInt(x + 1)
              [] OTHER -> RInt(x)
Xs(d) == [i \in DOMAIN xs |-> Cv(d, xs[i])]
Rw == [i \in DOMAIN ws |-> RInt(ws[i])]
Tot == FoldLeft(LAMBDA a, b : a + b, 0, ws)

Init == xs = <<>> /\ ws = <<>>
Add(x, w) == /\ Len(xs) < MaxRows
             /\ xs' = Append(xs, x) /\ ws' = Append(ws, w)
Next == \E x \in Vals, w \in Wts : Add(x, w)
Spec == Init /\ [][Next]_vars

Est(d, x, w) == Estimate(d, Old(d), <<>>, x, Scaled(w), FALSE)
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = b[k] \/ RClose(a[k], b[k], "1e-12")
RepQ(x, k) == [i \in 1..k |-> x]
Expand(q) == FoldLeft(LAMBDA a, i : a \o RepQ(q[i], ws[i]), <<>>, [i \in DOMAIN ws |-> i])

ScaleFree == Tot > 0 => \A d \in Fams : Same(Est(d, Xs(d), Rw), Est(d, Xs(d), [i \in DOMAIN ws |-> RMul(Rw[i], "2.5")]))
Repeats == Tot > 0 => \A d \in Fams :
             Same(Est(d, Xs(d), Rw), Est(d, Expand(Xs(d)), [i \in 1..Tot |-> One]))
ZeroWeight == Tot > 0 => \A d \in Fams :
             LET keep == SelectSeq([i \in DOMAIN ws |-> i], LAMBDA i : ws[i] > 0)
             IN Same(Est(d, Xs(d), Rw), Est(d, [i \in DOMAIN keep |-> Xs(d)[keep[i]]], [i \in DOMAIN keep |-> Rw[keep[i]]]))

(* weighted log-likelihood *)
LL(d, p) == RSum([i \in DOMAIN xs |-> IF ws[i] = 0 THEN Z ELSE RMul(Rw[i], RLn(Density(d, p, <<>>, Cv(d, xs[i]))))])
Bump(p, k, e) == [p EXCEPT ![k] = RMul(@, e)]
Shift(d, p) == IF d = "categorical"
               THEN {[p EXCEPT ![i] = RSub(@, RMul("0.1", @)), ![j] = RAdd(@, RMul("0.1", p[i]))] : <<i, j>> \in {q \in (1..3) \X (1..3) : q[1] # q[2]}}
               ELSE {Bump(p, k, e) : k \in (IF d \in {"binomial", "negative_binomial"} THEN {2} ELSE DOMAIN p), e \in {"0.95", "1.04"}}
Best == Tot > 0 => \A d \in Fams :
          LET p == Est(d, Xs(d), Rw)
              ok(q_) == InDomain(d, q_)
          IN (InDomain(d, p) /\ RFin(LL(d, p))) =>
               \A q \in Shift(d, p) : ok(q) /\ RFin(LL(d, q)) => RLe(LL(d, q), RAdd(LL(d, p), "1e-12"))
(* the boundary margin never accepts an estimate outside the domain *)
LaplaceMedian == Tot > 0 => \E i \in DOMAIN xs : MedianOk(RInt(xs[i]), [k \in DOMAIN xs |-> RInt(xs[k])], Rw)
=============================================================================
