--------------------------------- MODULE Mle ---------------------------------
(* Closed-form (weighted) maximum-likelihood estimates of the leaf families.  *)
(* xs: values, ws: weights already scaled to sum to the number of rows;       *)
(* bias: apply the documented small-sample corrections.                       *)
EXTENDS Dists, FiniteSets, SequencesExt, Functions

(* weights of one cell rescaled to sum to the number of rows *)
Scaled(ws) == LET s == RSum(ws) IN [i \in DOMAIN ws |-> RDiv(RMul(ws[i], RInt(Len(ws))), s)]
WMean(xs, ws) == RDiv(RDot(ws, xs), RSum(ws))
MapR(xs, Op(_)) == [i \in DOMAIN xs |-> Op(xs[i])]
Dev2(xs, m) == MapR(xs, LAMBDA x : RMul(RSub(x, m), RSub(x, m)))
SumW(xs, ws, P(_)) == RSum([i \in DOMAIN xs |-> IF P(xs[i]) THEN ws[i] ELSE Z])

(* the estimates as a tuple of parameters; "nan"/infinite where undefined; old: parameters before *)
Estimate(dist, old, aux, xs, ws, bias) ==
  LET n == RSum(ws)
      n1 == IF bias THEN RSub(n, One) ELSE n
      sx == RDot(ws, xs)
      mean == RDiv(sx, n)
      spread(ys) == LET m == WMean(ys, ws) IN RSqrt(RDiv(RDot(ws, Dev2(ys, m)), n1))
  IN
  CASE dist = "bernoulli" -> <<mean>>
    [] dist = "binomial" -> <<old[1], RDiv(mean, old[1])>>
    [] dist = "categorical" -> [k \in DOMAIN old |-> RDiv(SumW(xs, ws, LAMBDA x : REq(x, RInt(k - 1))), n)]
    [] dist = "exponential" -> <<RDiv(n1, sx)>>
    [] dist = "poisson" -> <<mean>>
    [] dist = "geometric" ->
         LET p == RDiv(n, RAdd(sx, n))
         IN <<IF bias THEN RSub(p, RDiv(RMul(p, RSub(One, p)), n)) ELSE p>>
    [] dist = "negative_binomial" ->
         LET nt == IF bias THEN RSub(RMul(n, old[1]), One) ELSE RMul(n, old[1])
         IN <<old[1], RDiv(sx, RAdd(sx, nt))>>
    [] dist = "normal" -> <<mean, spread(xs)>>
    [] dist = "log_normal" -> LET ys == MapR(xs, RLn) IN <<WMean(ys, ws), spread(ys)>>
    [] dist = "gamma" ->
         LET ls == MapR(xs, RLn)
             th == RSub(WMean([i \in DOMAIN xs |-> RMul(xs[i], ls[i])], ws), RMul(mean, WMean(ls, ws)))
             c == RDiv(mean, th)
             c1 == RAdd(One, c)
             cb == RSub(c, RDiv(RSub(RSub(RMul("3", c), RMul(RDiv("2", "3"), RDiv(c, c1))),
                                     RMul("0.8", RDiv(c, RMul(c1, c1)))), n))
         IN IF RLe(th, "1e-12") THEN <<"inf", "inf">>
            ELSE IF bias THEN <<cb, RMul(RDiv(One, th), RDiv(RSub(n, One), n))>> ELSE <<c, RDiv(One, th)>>
    [] dist = "histogram" ->
         [b \in DOMAIN old |-> RDiv(SumW(xs, ws, LAMBDA x : Bin(aux, x) = b), n)]
    [] OTHER -> old    \* uniform, hypergeometric: fixed parameters; laplace: see FitOk

(* parameters a distribution may have *)
InDomain(dist, p) ==
  LET pos(x) == RFin(x) /\ RLt(Z, x)
      unit(x) == RFin(x) /\ RLe(Z, x) /\ RLe(x, One)
  IN CASE dist \in {"bernoulli"} -> unit(p[1])
       [] dist = "geometric" -> unit(p[1]) /\ pos(p[1])
       [] dist = "binomial" -> pos(p[1]) /\ unit(p[2])
       [] dist = "negative_binomial" -> pos(p[1]) /\ unit(p[2]) /\ RLt(p[2], One)
       [] dist \in {"categorical", "histogram"} -> (\A k \in DOMAIN p : unit(p[k])) /\ RClose(RSum(p), One, "1e-9")
       [] dist \in {"exponential", "poisson"} -> pos(p[1])
       [] dist = "gamma" -> pos(p[1]) /\ pos(p[2])
       [] dist \in {"normal", "log_normal", "laplace"} -> RFin(p[1]) /\ pos(p[2])
       [] dist = "uniform" -> RFin(p[1]) /\ RFin(p[2]) /\ RLt(p[1], p[2])
       [] OTHER -> \A k \in DOMAIN p : RFin(p[k])

(* estimates on or beyond the boundary of the domain may be moved inside by a small margin *)
Margin == "1e-6"
Near(obs, e, tol) == IF ~RFin(e) THEN TRUE ELSE RLe(RAbs(RSub(obs, e)), RAdd(RMul(tol, RAdd(RAbs(e), Margin)), Margin))
EstOk(dist, obs, e, tol) ==
  \A k \in DOMAIN e :
    CASE dist \in {"normal", "log_normal"} /\ k = 1 -> Near(obs[k], e[k], tol)
      [] dist = "negative_binomial" /\ k = 2 -> ~RFin(e[k]) \/ RLe(One, e[k]) \/ RLe(e[k], Z) \/ Near(obs[k], e[k], tol)
      [] dist \in {"gamma", "exponential"} -> ~RFin(e[k]) \/ RLe(e[k], Z) \/ RLt("1e7", e[k]) \/ Near(obs[k], e[k], tol)
      [] OTHER -> Near(obs[k], e[k], tol)

MedianOk(x, xs, ws) ==
  LET half == RDiv(RSum(ws), "1.999999999999")
  IN /\ RLe(SumW(xs, ws, LAMBDA y : RLt(y, x)), half)
     /\ RLe(SumW(xs, ws, LAMBDA y : RLt(x, y)), half)
     /\ \E i \in DOMAIN xs : xs[i] = x

FitOk(dist, old, aux, obs, xs, ws_, bias, tol) ==
  LET ws == Scaled(ws_) IN
  /\ Len(obs) = Len(old)
  /\ IF dist = "laplace"
     THEN /\ MedianOk(obs[1], xs, ws)
          /\ Near(obs[2], RDiv(RDot(ws, MapR(xs, LAMBDA x : RAbs(RSub(x, obs[1])))), RSum(ws)), tol)
     ELSE EstOk(dist, obs, Estimate(dist, old, aux, xs, ws, bias), tol)
DomainOk(dist, obs) == InDomain(dist, obs)

(* additively smoothed conditional tables of a tree: rows X (positions), scaled weights ws *)
(* cpt[i][px][x], the root having the single row 1                                         *)
TreeFitOk(parent, cpt, X, ws_, alpha, tol) ==
  LET ws == Scaled(ws_)
      K == Len(cpt[1][1])
      cnt(i, x, j, y) == RAdd(alpha, RSum([b \in DOMAIN X |->
          IF REq(X[b][i], RInt(x - 1)) /\ (j = 0 \/ REq(X[b][j], RInt(y - 1))) THEN ws[b] ELSE Z]))
  IN \A i \in DOMAIN parent : \A px \in DOMAIN cpt[i] :
       LET col == TLCEval([x \in 1..K |-> cnt(i, x, parent[i], px)])
       IN \A x \in 1..K : RClose(cpt[i][px][x], RDiv(col[x], RSum(col)), tol)
=============================================================================
