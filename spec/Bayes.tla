--------------------------------- MODULE Bayes --------------------------------
(* Classification with a circuit whose root mixes one class-conditional channel *)
(* per class: node m is a sum over a single one-feature input.                  *)
EXTENDS Info
Prior(st, m) == st[m].w[1][1][1]
ClassLik(st, m, row) == Eval(st, st[m].ins[1], row)[1][1]
Joint(st, m, row) == LET w == Prior(st, m)  t == ClassLik(st, m, row) IN TLCEval([c \in DOMAIN w |-> RMul(w[c], t[c])])
Posterior(st, m, row) == LET j == Joint(st, m, row)  s == RSum(j) IN
  IF REq(s, Z) THEN <<>> ELSE TLCEval([c \in DOMAIN j |-> RDiv(j[c], s)])
Maximal(p, c) == \A d \in DOMAIN p : RLe(p[d], RAdd(p[c], "1e-9"))
PostClauses(st, ev) ==
  LET ps == TLCEval([i \in DOMAIN ev.rows |-> Posterior(st, ev.m, ev.rows[i])])
      ok(i) == ps[i] = <<>> \/ CASE ev.what = "log" -> Len(ev.out[i]) = Len(ps[i]) /\ \A c \in DOMAIN ps[i] : RLogIs(ev.out[i][c], ps[i][c], "1e-8")
                                 [] ev.what = "proba" -> Len(ev.out[i]) = Len(ps[i]) /\ \A c \in DOMAIN ps[i] : RClose(ev.out[i][c], ps[i][c], "1e-8")
                                 [] ev.what = "class" -> ev.out[i] + 1 \in DOMAIN ps[i] /\ Maximal(ps[i], ev.out[i] + 1)
                                 [] OTHER -> \E c \in DOMAIN ps[i] : ev.out[i] = ev.labels[c] /\ Maximal(ps[i], c)
  IN IF Len(ev.out) # Len(ev.rows) THEN {"batch_size"} ELSE IF \A i \in DOMAIN ev.rows : ok(i) THEN {} ELSE {IF ev.what \in {"log", "proba"} THEN "posterior" ELSE "class"}
(* the density estimator's score of a row is the aggregated log-likelihood *)
ScoreClauses(st, ev) ==
  IF Len(ev.out) = Len(ev.rows) /\ \A i \in DOMAIN ev.rows : RLogIs(ev.out[i], PrRow(st, ev, ev.rows[i]), "1e-8") THEN {} ELSE {"score"}
(* an empirical prior: the class frequencies of the targets *)
PriorClauses(st, ev) ==
  LET n == Len(ev.targets)
      k(c) == Len(SelectSeq(ev.targets, LAMBDA y : y = c - 1))
  IN IF \A c \in DOMAIN ev.w : RClose(ev.w[c], RDiv(RInt(k(c)), RInt(n)), "1e-9") THEN {} ELSE {"prior"}
===============================================================================
