------------------------------ MODULE Sampling ------------------------------
(* What sampling and most-probable-explanation decoding of a circuit mean.    *)
(* A request is a node m with a routing: one repetition r, one channel ch[f]  *)
(* per feature and a mask saying which features are requested.  Evidence is a *)
(* row e; the requested features are independent given the routing.           *)
EXTENDS WellFormed

(* value table for a row that mixes points, boxes and missing cells: cell v is *)
(* the point e[v] if it is not "nan", else the box lo[v]..hi[v] (nan = open)   *)
(* Differentiable sampling of a binomial leaf is documented to round a clamped    *)
(* normal variable of the same mean and variance (unless SIMPLE is requested).    *)
RoundedNormal(p, lo, hi) ==
  LET mu == RMul(p[1], p[2])
      sd == RSqrt(RMul(mu, RSub(One, p[2])))
  IN IntervalP("normal", <<mu, sd>>, <<>>, IF lo = "nan" \/ RLe(lo, Z) THEN "nan" ELSE RSub(lo, "0.5"),
                                           IF hi = "nan" \/ RLe(p[1], hi) THEN "nan" ELSE RAdd(hi, "0.5"))
LeafBox(n, e, lo, hi, soft) ==
  IF n.dist = "cltree"
  THEN LET K == Len(n.cpt[1][1][1][1])
           xs(i) == LET v == n.scope[i] + 1 IN
                    IF e[v] # "nan" THEN {e[v]}
                    ELSE IF lo[v] = "nan" /\ hi[v] = "nan" THEN {"nan"}
                    ELSE {RInt(k - 1) : k \in {k \in 1..K : (lo[v] = "nan" \/ RLe(lo[v], RInt(k - 1))) /\ (hi[v] = "nan" \/ RLe(RInt(k - 1), hi[v]))}}
           N == Len(n.scope)
           rows == {q \in [1..N -> UNION {xs(i) : i \in 1..N}] : \A i \in 1..N : q[i] \in xs(i)}
       IN Table(Len(n.cpt), N, Len(n.cpt[1]),
                LAMBDA r, f, c : IF f > 1 THEN One ELSE RSum([k \in 1..Cardinality(rows) |-> TreeP(n.parent, n.cpt[r][c], SetToSeq(rows)[k])]))
  ELSE Table(Len(n.par), Len(n.par[1]), Len(n.par[1][1]),
             LAMBDA r, f, c : LET v == n.scope[f] + 1 IN
               IF e[v] # "nan" THEN Cell(n.dist, n.par[r][f][c], n.aux, e[v])
               ELSE IF soft /\ n.dist = "binomial" /\ n.aux = <<>> THEN RoundedNormal(n.par[r][f][c], lo[v], hi[v])
               ELSE IntervalP(n.dist, n.par[r][f][c], n.aux, lo[v], hi[v]))
EvalBox(store, m, e, lo, hi, soft) == EvalAll(store, m, LAMBDA n : LeafBox(n, e, lo, hi, soft))[m]

(* probability of the requested features under a routing *)
Route(T, r, ch, mask) ==
  RProd([f \in DOMAIN ch |-> IF mask[f] = 0 THEN One ELSE T[Bc(Len(T), r)][f][Bc(Len(T[1][f]), ch[f])]])
RequestScope(store, m, r, mask) ==
  LET S == FScope(store, m) IN UNION {S[Bc(Len(S), r)][f] : f \in {f \in DOMAIN mask : mask[f] = 1}}

-----------------------------------------------------------------------------
(* Most-probable-explanation decoding: is the completion o an admissible one   *)
(* for output (r, f, c) of node i?  T holds the value tables of the evidence;   *)
(* with post = FALSE branches are chosen by weight alone.                      *)
NearMax(S, Score(_)) == {x \in S : \A y \in S : RLe(RMul(Score(y), "0.999999999"), Score(x))}

RECURSIVE MpeOk(_, _, _, _, _, _, _, _, _)
MpeOk(store, T, post, e, o, i, r, f, c) ==
  LET n == store[i]
      In(k) == n.ins[k]
      ch(k, rr, ff, cc) ==   \* recurse into input k with shared axes
        LET t == T[In(k)] IN MpeOk(store, T, post, e, o, In(k), Bc(Len(t), rr), ff, Bc(Len(t[1][1]), cc))
      chF(g) ==              \* feature g of the concatenated inputs: <<input, feature>>
        LET lens == [k \in DOMAIN n.ins |-> Len(T[In(k)][1])]
            k == CHOOSE k \in DOMAIN n.ins : SumQ(SubSeq(lens, 1, k - 1)) < g /\ g <= SumQ(SubSeq(lens, 1, k))
        IN <<k, g - SumQ(SubSeq(lens, 1, k - 1))>>
      chC(j) ==              \* channel j of the concatenated inputs: <<input, channel>>
        LET lens == [k \in DOMAIN n.ins |-> Len(T[In(k)][1][1])]
            k == CHOOSE k \in DOMAIN n.ins : SumQ(SubSeq(lens, 1, k - 1)) < j /\ j <= SumQ(SubSeq(lens, 1, k))
        IN <<k, j - SumQ(SubSeq(lens, 1, k - 1))>>
      val(k, rr, ff, cc) == IF post THEN At(T[In(k)], rr, ff, cc) ELSE One
      featureOf(k, ff) == IF n.split.kind = "none" THEN <<k, ff>>
                          ELSE <<1, SplitPart(n.split, Len(T[In(1)][1]), k)[ff]>>
      nparts == IF n.split.kind = "none" THEN Len(n.ins) ELSE n.split.k
      pv(k, ff, cc) == LET q == featureOf(k, ff) IN val(q[1], r, q[2], cc)
      pok(k, ff, cc) == LET q == featureOf(k, ff) IN ch(q[1], r, q[2], cc)
      pchan(k) == Len(T[In(featureOf(k, 1)[1])][1][1])
  IN CASE n.op = "leaf" /\ n.dist = "cltree" ->
            IF f > 1 THEN TRUE
            ELSE LET N == Len(n.scope)
                     K == Len(n.cpt[1][1][1][1])
                     ee == [q \in 1..N |-> e[n.scope[q] + 1]]
                     oo == [q \in 1..N |-> o[n.scope[q] + 1]]
                     comps == {q \in [1..N -> {RInt(k - 1) : k \in 1..K}] : \A v \in 1..N : ee[v] = "nan" \/ q[v] = ee[v]}
                     best == TLCEval(TreeP(n.parent, n.cpt[r][c], oo))
                 IN oo \in comps /\ \A q \in comps : RLe(RMul(TreeP(n.parent, n.cpt[r][c], q), "0.999999999"), best)
       [] n.op = "leaf" -> LET v == n.scope[f] + 1 IN
            IF e[v] = "nan" THEN IsMode(n.dist, n.par[r][f][c], n.aux, o[v]) ELSE o[v] = e[v]
       [] n.op = "cat1" -> LET q == chF(f) IN ch(q[1], r, q[2], c)
       [] n.op = "cat2" -> LET q == chC(c) IN ch(q[1], r, f, q[2])
       [] n.op = "id" -> ch(1, r, f, c)
       [] n.op = "sum" -> LET w == n.w[Bc(Len(n.w), r)][f][c] IN
            \E j \in NearMax(DOMAIN w, LAMBDA j : RMul(w[j], val(chC(j)[1], r, f, chC(j)[2]))) : ch(chC(j)[1], r, f, chC(j)[2])
       [] n.op = "esum" ->
            LET Co == Len(n.w[1][1][1])
                ci == ((c - 1) \div Co) + 1  co == ((c - 1) % Co) + 1
                w == n.w[r][f][ci][co]
            IN \E k \in NearMax(DOMAIN w, LAMBDA k : RMul(w[k], val(k, r, f, ci))) : ch(k, r, f, ci)
       [] n.op = "rmix" -> LET w == n.w[f][c] IN
            \E q \in NearMax(DOMAIN w, LAMBDA q : RMul(w[q], val(1, q, f, c))) : ch(1, q, f, c)
       [] n.op = "prod" -> \A g \in 1..SumQ([k \in DOMAIN n.ins |-> Len(T[In(k)][1])]) : LET q == chF(g) IN ch(q[1], r, q[2], c)
       [] n.op = "eprod" -> \A k \in 1..nparts : pok(k, f, c)
       [] n.op = "oprod" -> LET cs == [k \in 1..nparts |-> pchan(k)] IN \A k \in 1..nparts : pok(k, f, Digit(cs, c, k))
       [] n.op = "einsum" -> LET w == n.w[r][f][c] IN
            \E ij \in NearMax({<<i1, j1>> : i1 \in DOMAIN w, j1 \in DOMAIN w[1]},
                              LAMBDA ij : RProd(<<w[ij[1]][ij[2]], pv(1, f, ij[1]), pv(2, f, ij[2])>>)) :
              pok(1, f, ij[1]) /\ pok(2, f, ij[2])
       [] n.op = "linsum" -> LET w == n.w[r][f][c] IN
            \E k \in NearMax(DOMAIN w, LAMBDA k : RProd(<<w[k], pv(1, f, k), pv(2, f, k)>>)) : pok(1, f, k) /\ pok(2, f, k)
       [] n.op = "fact" -> \A q \in DOMAIN n.groups[r][f] : LET z == chF(n.groups[r][f][q]) IN ch(z[1], r, z[2], c)
       [] n.op = "pconv" -> \A q \in DOMAIN n.groups[f] : ch(1, r, n.groups[f][q], c)
       [] n.op = "sconv" -> LET w == n.w[r][n.kpos[f]][c] IN
            \E j \in NearMax(DOMAIN w, LAMBDA j : RMul(w[j], val(1, r, f, j))) : ch(1, r, f, j)

-----------------------------------------------------------------------------
(* Differentiable sampling: which parameters a batch of samples must depend on. *)
(* ChanSens(i): the sampled values of node i depend (differentiably) on the     *)
(* requested channel; RepSens(i): on the requested repetition.                  *)
Reparameterised == {"normal", "log_normal", "laplace", "exponential", "gamma", "bernoulli", "categorical", "histogram"}
RECURSIVE ChanSens(_, _)
ChanSens(store, i) ==
  LET n == store[i] IN
  IF n.op = "leaf" THEN n.dist # "cltree" /\ Len(n.par[1][1]) >= 2
  ELSE /\ n.op \notin {"sum", "einsum", "linsum", "sconv"} \/ Len(n.w[1][1]) >= 2
       /\ \E k \in DOMAIN n.ins : ChanSens(store, n.ins[k])
RECURSIVE RepSens(_, _)
RepSens(store, i) ==
  LET n == store[i] IN
  IF n.op = "leaf" THEN n.dist # "cltree" /\ Len(n.par) >= 2
  ELSE n.op # "rmix" /\ \E k \in DOMAIN n.ins : RepSens(store, n.ins[k])
(* nodes that a batch surely visits: below a concatenation of channels only when   *)
(* the channel is chosen at random by a sum above it                                *)
RECURSIVE Visited(_, _, _)
Visited(store, i, free) ==
  LET n == store[i]
      f == free \/ n.op \in {"sum", "einsum", "linsum", "sconv"}
  IN {i} \cup (IF n.op = "cat2" /\ ~free THEN {} ELSE UNION {Visited(store, n.ins[k], f) : k \in DOMAIN n.ins})
MustHaveGradient(store, i) ==
  LET n == store[i] IN
  CASE n.op = "leaf" -> n.dist \in Reparameterised
    [] n.op \in {"sum", "einsum", "linsum", "sconv"} -> \E k \in DOMAIN n.ins : ChanSens(store, n.ins[k])
    [] n.op = "rmix" -> \E k \in DOMAIN n.ins : RepSens(store, n.ins[k])
    [] OTHER -> FALSE
=============================================================================
