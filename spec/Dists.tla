-------------------------------- MODULE Dists --------------------------------
(* The univariate leaf distributions: densities / mass functions, interval    *)
(* probabilities, supports and modes, stated from their textbook definitions. *)
(* Parameters are tuples of decimal strings; x is a decimal string.           *)
EXTENDS RealNum, Integers, Sequences, TLC

Z == "0"
One == "1"
RGamma(x) == RExp(RLGamma(x))
LFact(k)  == RLGamma(RAdd(k, One))                       \* ln k!
LChoose(n, k) == RSub(LFact(n), RAdd(LFact(k), LFact(RSub(n, k))))
Choose(n, k) == RExp(LChoose(n, k))
NonNegInt(x) == RIsInt(x) /\ RLe(Z, x)

Pi == "3.14159265358979323846264338327950288419716939937510582097494"

NormPdf(loc, scale, x) ==
  LET z == RDiv(RSub(x, loc), scale)
  IN RDiv(RExp(RDiv(RMul(z, z), "-2")), RMul(scale, RSqrt(RMul("2", Pi))))

(* index of the histogram bin [edge_i, edge_{i+1}) containing x, 0 if none *)
Bin(edges, x) ==
  LET B == {i \in 1..(Len(edges) - 1) : RLe(edges[i], x) /\ RLt(x, edges[i + 1])}
  IN IF B = {} THEN 0 ELSE CHOOSE i \in B : TRUE

Discrete == {"bernoulli", "binomial", "categorical", "signed_categorical", "geometric", "hypergeometric",
             "negative_binomial", "poisson"}

(* is x a possible value of the distribution (where the density is defined)? *)
InSupport(dist, p, aux, x) ==
  CASE dist = "bernoulli" -> x \in {"0", "1"} \/ REq(x, Z) \/ REq(x, One)
    [] dist = "binomial" -> NonNegInt(x) /\ RLe(x, p[1])
    [] dist \in {"categorical", "signed_categorical"} -> NonNegInt(x) /\ RLt(x, RInt(Len(p)))
    [] dist \in {"geometric", "poisson", "negative_binomial"} -> NonNegInt(x)
    [] dist = "hypergeometric" ->
         /\ NonNegInt(x)
         /\ RLe(RSub(RAdd(p[3], p[1]), p[2]), x) /\ RLe(x, p[1]) /\ RLe(x, p[3])
    [] dist = "exponential" -> RLe(Z, x)
    [] dist = "gamma" -> RLt(Z, x)
    [] dist = "log_normal" -> RLt(Z, x)
    [] dist = "uniform" -> RLe(p[1], x) /\ RLe(x, p[2])
    [] dist = "histogram" -> Bin(aux, x) # 0
    [] OTHER -> RFin(x)

(* density / mass at x; 0 outside the support *)
Density(dist, p, aux, x) ==
  IF ~InSupport(dist, p, aux, x) THEN Z ELSE
  CASE dist = "bernoulli" -> IF REq(x, One) THEN p[1] ELSE RSub(One, p[1])
    [] dist \in {"categorical", "signed_categorical"} -> p[RFloor(x) + 1]
    [] dist = "binomial" ->
         RProd(<<Choose(p[1], x), RPow(p[2], RFloor(x)), RPow(RSub(One, p[2]), RFloor(p[1]) - RFloor(x))>>)
    [] dist = "geometric" -> RMul(p[1], RPow(RSub(One, p[1]), RFloor(x)))
    [] dist = "poisson" -> RDiv(RMul(RPow(p[1], RFloor(x)), RExp(RNeg(p[1]))), RExp(LFact(x)))
    [] dist = "negative_binomial" ->   \* p[1] failures-to-stop n, p[2] success probability
         RProd(<<RExp(RSub(RLGamma(RAdd(p[1], x)), RAdd(LFact(x), RLGamma(p[1])))),
                 RExp(RMul(p[1], RLn(RSub(One, p[2])))), RPow(p[2], RFloor(x))>>)
    [] dist = "hypergeometric" ->     \* K successes, N population, n draws
         RExp(RSub(RAdd(LChoose(p[1], x), LChoose(RSub(p[2], p[1]), RSub(p[3], x))), LChoose(p[2], p[3])))
    [] dist = "exponential" -> RMul(p[1], RExp(RNeg(RMul(p[1], x))))
    [] dist = "gamma" ->
         RExp(RSub(RAdd(RMul(p[1], RLn(p[2])), RMul(RSub(p[1], One), RLn(x))),
                   RAdd(RMul(p[2], x), RLGamma(p[1]))))
    [] dist = "laplace" -> RDiv(RExp(RNeg(RDiv(RAbs(RSub(x, p[1])), p[2]))), RMul("2", p[2]))
    [] dist = "log_normal" -> RDiv(NormPdf(p[1], p[2], RLn(x)), x)
    [] dist = "normal" -> NormPdf(p[1], p[2], x)
    [] dist = "uniform" -> RDiv(One, RSub(p[2], p[1]))
    [] dist = "histogram" -> LET b == Bin(aux, x) IN RDiv(p[b], RSub(aux[b + 1], aux[b]))

(* P(X <= x) for the continuous families *)
Cdf(dist, p, x) ==
  CASE dist = "normal" -> RNormCdf(IF RFin(x) THEN RDiv(RSub(x, p[1]), p[2]) ELSE x)
    [] dist = "log_normal" -> IF x = "inf" THEN One
                              ELSE IF x = "-inf" \/ RLe(x, Z) THEN Z
                              ELSE RNormCdf(RDiv(RSub(RLn(x), p[1]), p[2]))
    [] dist = "exponential" -> IF x = "inf" THEN One ELSE IF x = "-inf" \/ RLe(x, Z) THEN Z
                              ELSE RSub(One, RExp(RNeg(RMul(p[1], x))))
    [] dist = "gamma" -> IF x = "inf" THEN One ELSE IF x = "-inf" \/ RLe(x, Z) THEN Z
                              ELSE RGammaP(p[1], RMul(p[2], x))
    [] dist = "laplace" -> IF x = "inf" THEN One ELSE IF x = "-inf" THEN Z
                              ELSE LET z == RDiv(RSub(x, p[1]), p[2])
                                   IN IF RLt(z, Z) THEN RDiv(RExp(z), "2")
                                      ELSE RSub(One, RDiv(RExp(RNeg(z)), "2"))
    [] dist = "uniform" -> IF x = "inf" \/ (x # "-inf" /\ RLe(p[2], x)) THEN One
                              ELSE IF x = "-inf" \/ RLe(x, p[1]) THEN Z
                              ELSE RDiv(RSub(x, p[1]), RSub(p[2], p[1]))

(* probability of the closed interval [lo, hi]; "nan" / infinite = unbounded  *)
(* dmax: an upper bound on the support enumeration of the discrete families   *)
SupMax(dist, p) ==
  CASE dist = "bernoulli" -> 1
    [] dist \in {"categorical", "signed_categorical"} -> Len(p) - 1
    [] dist = "binomial" -> RFloor(p[1])
    [] dist = "hypergeometric" -> RFloor(p[1])
    [] OTHER -> 0
MassTo(dist, p, aux, a, b) == RSum([i \in 1..(b - a + 1) |-> Density(dist, p, aux, RInt(a + i - 1))])
IntervalP(dist, p, aux, lo, hi) ==
  LET nolo == ~RFin(lo)  nohi == ~RFin(hi) IN
  IF nolo /\ nohi THEN One
  ELSE IF dist \in Discrete THEN
    LET a == IF nolo \/ RLt(lo, Z) THEN 0 ELSE RCeil(lo)
    IN IF dist \in {"geometric", "poisson", "negative_binomial"} /\ nohi
       THEN IF a = 0 THEN One ELSE RSub(One, MassTo(dist, p, aux, 0, a - 1))
       ELSE LET b == IF nohi THEN SupMax(dist, p) ELSE RFloor(hi)
            IN IF b < a THEN Z ELSE MassTo(dist, p, aux, a, b)
  ELSE IF dist = "histogram" THEN
    RSum([b \in 1..(Len(aux) - 1) |->
      LET l == IF nolo \/ RLt(lo, aux[b]) THEN aux[b] ELSE lo
          h == IF nohi \/ RLt(aux[b + 1], hi) THEN aux[b + 1] ELSE hi
      IN IF RLe(h, l) THEN Z ELSE RMul(p[b], RDiv(RSub(h, l), RSub(aux[b + 1], aux[b])))])
  ELSE RSub(Cdf(dist, p, IF nohi THEN "inf" ELSE hi), Cdf(dist, p, IF nolo THEN "-inf" ELSE lo))

(* x is a mode of the distribution *)
IsMode(dist, p, aux, x) ==
  CASE dist \in {"bernoulli", "categorical", "binomial", "geometric", "poisson",
                 "negative_binomial", "hypergeometric"} ->
         /\ InSupport(dist, p, aux, x)
         /\ LET d == Density(dist, p, aux, x)
                up == RAdd(x, One)  dn == RSub(x, One)
                ge(y) == RLe(Density(dist, p, aux, y), RMul(d, "1.000000001"))
            IN IF dist = "categorical" THEN \A k \in 1..Len(p) : ge(RInt(k - 1))
               ELSE ge(up) /\ (RLt(x, One) \/ ge(dn))
    [] dist \in {"normal", "laplace"} -> RClose(x, p[1], "1e-9")
    [] dist = "log_normal" -> RClose(x, RExp(RSub(p[1], RMul(p[2], p[2]))), "1e-9")
    [] dist = "exponential" -> REq(x, Z)
    [] dist = "gamma" -> RClose(x, IF RLe(p[1], One) THEN Z ELSE RDiv(RSub(p[1], One), p[2]), "1e-9")
    [] dist = "uniform" -> RLe(p[1], x) /\ RLe(x, p[2])
    [] dist = "histogram" -> LET b == Bin(aux, x) IN   \* documented: a point of a bin of maximal probability
                             b # 0 /\ \A i \in 1..Len(p) : RLe(p[i], RMul(p[b], "1.000000001"))
=============================================================================
