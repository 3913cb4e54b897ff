------------------------------- MODULE Signed -------------------------------
(* Signed circuits, inner and triple products of compatible circuits, and     *)
(* models built from sums of squares.                                         *)
(*                                                                            *)
(* A signed sum is a "sum" node whose weights may be negative, a signed       *)
(* categorical leaf a leaf whose "mass function" may be negative; Circuit.Eval *)
(* then gives the signed value.  A product of k circuits ms = <<m1, .., mk>>  *)
(* is the table P[r][f][q] of the integrals over the variables of feature f   *)
(* of the product of the values, q ranging over the channel tuples in         *)
(* row-major order.  Enum states that directly for finite domains; Ip computes *)
(* it along the common structure (InnerMC shows they agree).                  *)
EXTENDS Circuit

-----------------------------------------------------------------------------
(* magnitudes: the same circuit with all signs dropped *)
RECURSIVE AbsDeep(_, _)
AbsDeep(w, d) == IF d = 0 THEN RAbs(w) ELSE TLCEval([i \in DOMAIN w |-> AbsDeep(w[i], d - 1)])
AbsNode(n) == IF n.op = "sum" THEN [n EXCEPT !.w = AbsDeep(@, 4)]
              ELSE IF n.op = "leaf" /\ n.dist = "signed_categorical" THEN [n EXCEPT !.par = AbsDeep(@, 4)]
              ELSE n
AbsOf(store) == TLCEval([i \in DOMAIN store |-> AbsNode(store[i])])

-----------------------------------------------------------------------------
(* integral (sum) over the real line of the product of k densities of one family *)
SumTo(n, Op(_)) == RSum([i \in 1..(n + 1) |-> Op(RInt(i - 1))])
SumFromTo(a, b, Op(_)) == RSum([i \in 1..(b - a + 1) |-> Op(RInt(a + i - 1))])
Col(ps, j) == [i \in DOMAIN ps |-> ps[i][j]]
PiD(dist, ps, auxs, x) == RProd([i \in DOMAIN ps |-> Density(dist[i], ps[i], auxs[i], x)])
RMax(q) == FoldLeft(LAMBDA a, b : IF RLt(a, b) THEN b ELSE a, q[1], q)
RMin(q) == FoldLeft(LAMBDA a, b : IF RLt(b, a) THEN b ELSE a, q[1], q)
Inv2(s) == RDiv(One, RMul(s, s))
(* product of k Gaussians in u, times exp(-t u), integrated over u *)
GaussK(ps, t) ==
  LET a == [i \in DOMAIN ps |-> Inv2(ps[i][2])]
      A == RSum(a)
      M == RSub(RDot(a, Col(ps, 1)), t)
      Q2 == RDot(a, [i \in DOMAIN ps |-> RMul(ps[i][1], ps[i][1])])
      E == RDiv(RSub(RDiv(RMul(M, M), A), Q2), "2")
  IN RProd(<<RExp(E), RSqrt(RDiv(RMul("2", Pi), A)),
             RProd([i \in DOMAIN ps |-> RDiv(One, RMul(ps[i][2], RSqrt(RMul("2", Pi))))])>>)
(* Laplace: the exponent is linear between the sorted centres *)
LaplK(ps) ==
  LET k == Len(ps)
      ord == SetToSortSeq(1..k, LAMBDA i, j : RLt(ps[i][1], ps[j][1]) \/ (REq(ps[i][1], ps[j][1]) /\ i < j))
      mu(z) == ps[ord[z]][1]
      g(x) == RNeg(RSum([i \in 1..k |-> RDiv(RAbs(RSub(x, ps[i][1])), ps[i][2])]))
      tot == RSum([i \in 1..k |-> RDiv(One, ps[i][2])])
      seg(z) ==   \* between centre z and centre z + 1
        LET l == mu(z)  h == mu(z + 1)
            sl == RSum([i \in 1..k |-> IF i <= z THEN RNeg(RDiv(One, ps[ord[i]][2])) ELSE RDiv(One, ps[ord[i]][2])])
        IN IF REq(l, h) THEN Z
           ELSE IF RLt(RAbs(RMul(sl, RSub(h, l))), "1e-15") THEN RMul(RExp(g(l)), RSub(h, l))
           ELSE RDiv(RSub(RExp(g(h)), RExp(g(l))), sl)
  IN RDiv(RSum(<<RDiv(RExp(g(mu(1))), tot), RDiv(RExp(g(mu(k))), tot)>> \o [z \in 1..(k - 1) |-> seg(z)]),
          RProd([i \in 1..k |-> RMul("2", ps[i][2])]))
GammaS(ps) == RSub(RSum(Col(ps, 1)), RInt(Len(ps) - 1))
GammaK(ps) ==
  LET s == GammaS(ps)
      B == RSum(Col(ps, 2))
  IN RExp(RSub(RAdd(RSum([i \in DOMAIN ps |-> RSub(RMul(ps[i][1], RLn(ps[i][2])), RLGamma(ps[i][1]))]), RLGamma(s)), RMul(s, RLn(B))))
(* series of the product of mass functions around its largest term *)
Window(c) == RCeil(RMul("6", RSqrt(c))) + 45      \* more than eight deviations
PoisK(ps) ==
  LET c == RExp(RDiv(RSum([i \in DOMAIN ps |-> RLn(ps[i][1])]), RInt(Len(ps))))
      w == Window(c)
      f == RFloor(c)
      lrate == RSum([i \in DOMAIN ps |-> RLn(ps[i][1])])
      tot == RSum(Col(ps, 1))
  IN SumFromTo(IF f < w THEN 0 ELSE f - w, f + w,
               LAMBDA x : RExp(RSub(RSub(RMul(x, lrate), tot), RMul(RInt(Len(ps)), LFact(x)))))
NbK(ps, dist, auxs) ==     \* the terms fall like q^x x^(sum of the counts)
  LET lq == RNeg(RSum([i \in DOMAIN ps |-> RLn(ps[i][2])]))
      n == RCeil(RDiv(RAdd("40", RMul("3", RSum(Col(ps, 1)))), lq))
  IN SumTo(n, LAMBDA x : PiD(dist, ps, auxs, x))
HistK(ps, auxs) ==
  LET edges == SetToSortSeq(UNION {Rg(auxs[i]) : i \in DOMAIN auxs}, LAMBDA a, b : RLt(a, b))
      mid(z) == RDiv(RAdd(edges[z], edges[z + 1]), "2")
  IN RSum([z \in 1..(Len(edges) - 1) |->
       RMul(RSub(edges[z + 1], edges[z]), RProd([i \in DOMAIN ps |-> Density("histogram", ps[i], auxs[i], mid(z))]))])
Leaf1(d) == IF d = "signed_categorical" THEN "categorical" ELSE d
LeafK(dist, ps, auxs) ==
  LET d == Leaf1(dist[1]) IN
  CASE d \in {"bernoulli", "categorical"} -> SumTo(SupMax(d, ps[1]), LAMBDA x : PiD(dist, ps, auxs, x))
    [] d \in {"binomial", "hypergeometric"} ->
         SumTo(RFloor(RMin([i \in DOMAIN ps |-> RInt(SupMax(d, ps[i]))])), LAMBDA x : PiD(dist, ps, auxs, x))
    [] d = "geometric" -> RDiv(RProd(Col(ps, 1)), RSub(One, RProd([i \in DOMAIN ps |-> RSub(One, ps[i][1])])))
    [] d = "poisson" -> PoisK(ps)
    [] d = "negative_binomial" -> NbK(ps, dist, auxs)
    [] d = "exponential" -> RDiv(RProd(Col(ps, 1)), RSum(Col(ps, 1)))
    [] d = "gamma" -> GammaK(ps)
    [] d = "normal" -> GaussK(ps, Z)
    [] d = "log_normal" -> GaussK(ps, RInt(Len(ps) - 1))
    [] d = "laplace" -> LaplK(ps)
    [] d = "uniform" -> LET l == RMax(Col(ps, 1))  h == RMin(Col(ps, 2)) IN
                        IF RLe(h, l) THEN Z ELSE RDiv(RSub(h, l), RProd([i \in DOMAIN ps |-> RSub(ps[i][2], ps[i][1])]))
    [] d = "histogram" -> HistK(ps, auxs)
(* may the closed form be refused?  (the integral diverges) *)
Integrable(d, ps) == d # "gamma" \/ RLt(Z, GammaS(ps))

-----------------------------------------------------------------------------
(* Which circuits are compatible: the same structure over the same variables in the same order, leaf by leaf *)
Group(n) == IF n.op = "leaf" THEN Leaf1(n.dist) ELSE IF n.op = "id" THEN "id" ELSE n.op
KOf(n) == IF n.dist = "cltree" THEN Len(n.cpt[1][1][1][1]) ELSE IF n.dist \in {"categorical", "signed_categorical"} THEN Len(n.par[1][1][1]) ELSE 0
SameAll(q) == \A i \in DOMAIN q : q[i] = q[1]
Tup(cs) == 1..ProdLen(cs)
Arity(q) == SameAll([i \in DOMAIN q |-> Len(q[i])])
LeafComp(ns) ==
  /\ SameAll([i \in DOMAIN ns |-> Group(ns[i])])
  /\ SameAll([i \in DOMAIN ns |-> ns[i].scope])
  /\ SameAll([i \in DOMAIN ns |-> KOf(ns[i])])
  /\ ns[1].dist = "cltree" => SameAll([i \in DOMAIN ns |-> ns[i].parent]) /\ SameAll([i \in DOMAIN ns |-> Len(ns[i].cpt)])
  /\ ns[1].dist # "cltree" =>
       /\ SameAll([i \in DOMAIN ns |-> Len(ns[i].par)])
       /\ \A r \in DOMAIN ns[1].par : \A f \in DOMAIN ns[1].par[r] :
            LET cs == [i \in DOMAIN ns |-> Len(ns[i].par[r][f])] IN
            /\ (ns[1].dist = "gamma" => \A q \in Tup(cs) : Integrable("gamma", [i \in DOMAIN ns |-> ns[i].par[r][f][Digit(cs, q, i)]]))
            /\ (ns[1].dist = "hypergeometric" => \A i \in DOMAIN ns : \A c \in 1..cs[i] : REq(ns[i].par[r][f][c][2], ns[1].par[r][f][1][2]))
(* families for which a product of three has no closed form in the library: it may be refused *)
NoTriple == {"exponential", "laplace", "log_normal", "poisson", "gamma", "cltree"}
Refusable(store, ms) == Len(ms) > 2 /\ \E i \in Reach(store, ms[1]) : store[i].op = "leaf" /\ store[i].dist \in NoTriple
Supported == {"leaf", "sum", "prod", "cat1", "cat2"}
(* several inputs of a sum or product are concatenated: the same as one concatenation of them *)
InsOf(store, n) ==
  IF n.op \in {"sum", "prod"} /\ Len(n.ins) = 1
  THEN LET c == store[n.ins[1]] IN
       IF c.op = (IF n.op = "sum" THEN "cat2" ELSE "cat1") /\ Len(c.ins) > 1 THEN c.ins ELSE n.ins
  ELSE n.ins
RECURSIVE Comp(_, _)
CompCol(store, lists) == Arity(lists) /\ \A j \in DOMAIN lists[1] : Comp(store, [i \in DOMAIN lists |-> lists[i][j]])
(* every combination of the concatenated channel blocks meets *)
RECURSIVE Combos(_)
Combos(lists) == IF lists = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Rg(Head(lists)), y \in Combos(Tail(lists))}
CompBlk(store, lists) == \A q \in Combos(lists) : Comp(store, q)
Comp(store, ms) ==
  LET ns == [i \in DOMAIN ms |-> store[ms[i]]]
      ins == [i \in DOMAIN ms |-> InsOf(store, ns[i])]
      op == ns[1].op IN
  /\ \A i \in DOMAIN ns : ns[i].op \in Supported /\ ns[i].op = op
  /\ SameAll([i \in DOMAIN ms |-> ShapeOf(store, ms[i])[1]])
  /\ SameAll([i \in DOMAIN ms |-> ShapeOf(store, ms[i])[3]])
  /\ CASE op = "leaf" -> LeafComp(ns)
       [] op = "cat1" -> CompCol(store, ins)
       [] op = "cat2" -> CompBlk(store, ins)
       [] op = "sum" -> SameAll([i \in DOMAIN ns |-> Len(ins[i]) > 1]) /\ CompBlk(store, ins)
       [] op = "prod" -> SameAll([i \in DOMAIN ns |-> Len(ins[i]) > 1]) /\ CompCol(store, ins)

(* number of channels, without building shapes *)
ChanOf(store, m) == ShapeOf(store, m)[2]
TreeK(ns, r, cs, q) ==      \* sum over all joint assignments of the tree's variables
  LET F == Len(ns[1].scope)
      K == KOf(ns[1])
      X == [1..F -> 0..(K - 1)]
      xs == SetToSeq(X)
  IN RSum([z \in 1..Len(xs) |->
       LET e == [i \in 1..F |-> RInt(xs[z][i])] IN
       RProd([i \in DOMAIN ns |-> TreeP(ns[i].parent, ns[i].cpt[r][Digit(cs, q, i)], e)])])
RECURSIVE Ip(_, _)
IpCol(store, lists) ==        \* features side by side
  LET ts == TLCEval([j \in DOMAIN lists[1] |-> Ip(store, [i \in DOMAIN lists |-> lists[i][j]])]) IN
  TLCEval([r \in 1..Len(ts[1]) |-> FoldLeft(LAMBDA a, t : a \o t[r], <<>>, ts)])
(* channel c of a concatenation: block and channel within it *)
RECURSIVE Locate(_, _)
Locate(cs, c) == IF c <= Head(cs) THEN <<1, c>> ELSE LET r == Locate(Tail(cs), c - Head(cs)) IN <<r[1] + 1, r[2]>>
IpBlk(store, lists) ==        \* channels side by side, in every circuit
  LET sz == TLCEval([i \in DOMAIN lists |-> [j \in DOMAIN lists[i] |-> ChanOf(store, lists[i][j])]])
      cs == [i \in DOMAIN lists |-> SumQ(sz[i])]
      blocks == TLCEval([q \in Combos([i \in DOMAIN lists |-> Iota(Len(lists[i]))]) |-> Ip(store, [i \in DOMAIN lists |-> lists[i][q[i]]])])
      at(r, f, q) ==
        LET loc == [i \in DOMAIN lists |-> Locate(sz[i], Digit(cs, q, i))]
            b == [i \in DOMAIN lists |-> loc[i][1]]
            lc == [i \in DOMAIN lists |-> sz[i][b[i]]]
            lin == FoldLeft(LAMBDA a, i : a * lc[i] + (loc[i][2] - 1), 0, Iota(Len(lists))) + 1
        IN blocks[b][r][f][lin]
      any == blocks[[i \in DOMAIN lists |-> 1]]
  IN Table(Len(any), Len(any[1]), ProdLen(cs), at)
Ip(store, ms) ==
  LET ns == [i \in DOMAIN ms |-> store[ms[i]]]
      ins == [i \in DOMAIN ms |-> InsOf(store, ns[i])]
      op == ns[1].op IN
  CASE op = "leaf" /\ ns[1].dist = "cltree" ->
         LET cs == [i \in DOMAIN ns |-> Len(ns[i].cpt[1])] IN
         Table(Len(ns[1].cpt), Len(ns[1].scope), ProdLen(cs), LAMBDA r, f, q : IF f > 1 THEN One ELSE TreeK(ns, r, cs, q))
    [] op = "leaf" /\ ns[1].dist # "cltree" ->
         LET cs == [i \in DOMAIN ns |-> Len(ns[i].par[1][1])] IN
         Table(Len(ns[1].par), Len(ns[1].par[1]), ProdLen(cs),
               LAMBDA r, f, q : LeafK([i \in DOMAIN ns |-> ns[i].dist], [i \in DOMAIN ns |-> ns[i].par[r][f][Digit(cs, q, i)]],
                                      [i \in DOMAIN ns |-> ns[i].aux]))
    [] op = "cat1" -> IpCol(store, ins)
    [] op = "cat2" -> IpBlk(store, ins)
    [] op = "prod" ->
         LET T == IpCol(store, ins) IN
         Table(Len(T), 1, Len(T[1][1]), LAMBDA r, f, q : RProd([g \in 1..Len(T[r]) |-> T[r][g][q]]))
    [] op = "sum" ->
         LET T == IpBlk(store, ins)
             ci == [i \in DOMAIN ns |-> Len(ns[i].w[1][1][1])]
             co == [i \in DOMAIN ns |-> Len(ns[i].w[1][1])]
             R == Max({Len(T)} \cup {Len(ns[i].w) : i \in DOMAIN ns})
         IN Table(R, Len(T[1]), ProdLen(co), LAMBDA r, f, o :
              RSum([p \in 1..ProdLen(ci) |->
                RMul(T[Bc(Len(T), r)][f][p],
                     RProd([i \in DOMAIN ns |-> ns[i].w[Bc(Len(ns[i].w), r)][f][Digit(co, o, i)][Digit(ci, p, i)]]))]))

-----------------------------------------------------------------------------
(* The definition, for finite domains: dom[v + 1] = number of values of variable v (0: not finite).  *)
(* The joint of a tree leaf sits in its first feature.                                               *)
TreeScope(n) == [r \in 1..Len(n.cpt) |-> [f \in 1..Len(n.scope) |-> IF f = 1 THEN Rg(n.scope) ELSE {}]]
VScope(store, m) ==
  LET need == Reach(store, m)
  IN FoldLeft(LAMBDA acc, i : Append(acc,
        IF i \notin need THEN <<>>
        ELSE IF store[i].op = "leaf" THEN IF store[i].dist = "cltree" THEN TreeScope(store[i]) ELSE LeafScope(store[i])
        ELSE SInner(store[i], [k \in DOMAIN store[i].ins |-> acc[store[i].ins[k]]])), <<>>, Iota(m))[m]
Assignments(S, dom) == {x \in [S -> 0..Max({dom[v + 1] : v \in S} \cup {1})] : \A v \in S : x[v] < dom[v + 1]}
DomSize(S, dom) == FoldSet(LAMBDA v, a : a * dom[v + 1], 1, S)
Enum(store, ms, dom) ==
  LET S == VScope(store, ms[1])
      cs == [i \in DOMAIN ms |-> ChanOf(store, ms[i])]
      all == UNION {UnionOf(S[r]) : r \in DOMAIN S}
      row(x, A) == [v \in 1..Len(dom) |-> IF v - 1 \in A THEN RInt(x[v - 1]) ELSE "nan"]
      part(A) ==    \* the integral over the variables A, for every output
        LET xs == SetToSeq(Assignments(A, dom))
            vals == TLCEval([z \in 1..Len(xs) |-> TLCEval([i \in DOMAIN ms |-> Eval(store, ms[i], row(xs[z], A))])])
        IN TLCEval([r \in DOMAIN S |-> [f \in DOMAIN S[r] |-> IF S[r][f] # A THEN <<>> ELSE
              [q \in 1..ProdLen(cs) |-> RSum([z \in 1..Len(xs) |-> RProd([i \in DOMAIN ms |-> At(vals[z][i], r, f, Digit(cs, q, i))])])]]])
      groups == {S[r][f] : r \in DOMAIN S, f \in 1..Len(S[1])}
      parts == TLCEval([A \in groups |-> part(A)])
  IN TLCEval([r \in DOMAIN S |-> TLCEval([f \in DOMAIN S[r] |-> parts[S[r][f]][r][f]])])
Finite(store, m, dom, lim) ==
  LET S == VScope(store, m) IN
  \A r \in DOMAIN S : \A f \in DOMAIN S[r] : (\A v \in S[r][f] : dom[v + 1] > 0) /\ DomSize(S[r][f], dom) <= lim
Product_(store, ms, dom) == IF Finite(store, ms[1], dom, 40) THEN Enum(store, ms, dom) ELSE Ip(store, ms)

-----------------------------------------------------------------------------
(* judgements *)
SV(name, ok) == IF ok THEN {} ELSE {name}
Dims3(out, T) ==
  /\ Len(out) = Len(T)
  /\ \A r \in 1..Len(T) : Len(out[r]) = Len(T[r]) /\ \A f \in 1..Len(T[r]) : Len(out[r][f]) = Len(T[r][f])
(* |obs - exact| <= 1e-9 * size *)
NearS(obs, exact, size) == obs \notin {"nan", "inf", "-inf"} /\ RLe(RAbs(RSub(obs, exact)), RAdd(RMul("1e-9", size), "1e-25"))

(* signed evaluation: ev.la the log-magnitudes, ev.sg the signs, per row *)
SignedOf(la, sg) == IF la = "-inf" \/ sg = 0 THEN Z ELSE IF sg = 1 THEN RExp(la) ELSE RNeg(RExp(la))
SignedClauses(store, ev) ==
  LET A == AbsOf(store)
      ok(i) ==
        LET T == Eval(store, ev.m, ev.rows[i])
            B == Eval(A, ev.m, ev.rows[i])
        IN /\ Dims3(ev.la[i], T)
           /\ \A r \in DOMAIN T : \A f \in DOMAIN T[r] : \A c \in DOMAIN T[r][f] :
                /\ ev.sg[i][r][f][c] \in {-1, 0, 1}
                /\ ev.la[i][r][f][c] # "nan" /\ ev.la[i][r][f][c] # "inf"
                /\ NearS(SignedOf(ev.la[i][r][f][c], ev.sg[i][r][f][c]), T[r][f][c], B[r][f][c])
  IN SV("signed_value", Len(ev.la) = Len(ev.rows) /\ \A i \in DOMAIN ev.rows : ok(i))

(* inner product (two modules) or triple product of ev.ms; out[r][f][q], or refused *)
IpClauses(store, ev) ==
  LET comp == Comp(store, ev.ms) IN
  IF comp
  THEN IF ev.refused THEN SV("compatible_refused", Refusable(store, ev.ms))
       ELSE LET T == Product_(store, ev.ms, ev.dom)
                B == Product_(AbsOf(store), ev.ms, ev.dom)
            IN SV("shape", Dims3(ev.out, T))
               \cup (IF ~Dims3(ev.out, T) THEN {}
                     ELSE SV("product_value", \A r \in DOMAIN T : \A f \in DOMAIN T[r] : \A q \in DOMAIN T[r][f] :
                                              NearS(ev.out[r][f][q], T[r][f][q], B[r][f][q])))
  ELSE IF ev.refused THEN {}
  ELSE LET S == [i \in DOMAIN ev.ms |-> VScope(store, ev.ms[i])] IN
       IF SameAll(S) /\ Finite(store, ev.ms[1], ev.dom, 40)
       THEN LET T == Enum(store, ev.ms, ev.dom)  B == Enum(AbsOf(store), ev.ms, ev.dom) IN
            SV("incompatible_wrong_value", Dims3(ev.out, T) /\ \A r \in DOMAIN T : \A f \in DOMAIN T[r] : \A q \in DOMAIN T[r][f] :
                                              NearS(ev.out[r][f][q], T[r][f][q], B[r][f][q]))
       ELSE {"incompatible_accepted"}

(* likelihood of a sum of squares (mono = 0) or of one multiplied by a monotone circuit *)
DiagTuple(C, k, c) == FoldLeft(LAMBDA a, i : a * C + (c - 1), 0, Iota(k)) + 1
SosMs(ev, i) == IF ev.mono = 0 THEN <<ev.comps[i], ev.comps[i]>> ELSE <<ev.comps[i], ev.comps[i], ev.mono>>
(* a model whose mass has no closed form in the library may refuse to be evaluated *)
SosComp(store, ev) == \A i \in DOMAIN ev.comps : Comp(store, SosMs(ev, i))
SosMayRefuse(store, ev) == ~SosComp(store, ev) \/ \E i \in DOMAIN ev.comps : Refusable(store, SosMs(ev, i))
SosNoMass(store, ev) == ~SosComp(store, ev) /\ \E i \in DOMAIN ev.comps : ~Finite(store, ev.comps[i], ev.dom, 40)
SosZ(store, ev) ==
  LET comps == ev.comps
      mono == ev.mono
      ts == TLCEval([i \in DOMAIN comps |-> Product_(store, SosMs(ev, i), ev.dom)])
      sh == ShapeOf(store, comps[1])
  IN Table(sh[3], sh[1], sh[2], LAMBDA r, f, c : RSum([i \in DOMAIN comps |-> ts[i][r][f][DiagTuple(sh[2], IF mono = 0 THEN 2 ELSE 3, c)]]))
SosValues(store, ev) ==
  LET A == AbsOf(store)
      Zt == SosZ(store, ev)
      Za == SosZ(A, ev)
      ok(b) ==
        LET vs == TLCEval([i \in DOMAIN ev.comps |-> Eval(store, ev.comps[i], ev.rows[b])])
            as == TLCEval([i \in DOMAIN ev.comps |-> Eval(A, ev.comps[i], ev.rows[b])])
            mo == IF ev.mono = 0 THEN <<>> ELSE Eval(store, ev.mono, ev.rows[b])
            sq(q) == RSum([i \in DOMAIN q |-> RMul(q[i], q[i])])
        IN /\ Dims3(ev.out[b], Zt)
           /\ \A r \in DOMAIN Zt : \A f \in DOMAIN Zt[r] : \A c \in DOMAIN Zt[r][f] :
                LET v == [i \in DOMAIN vs |-> vs[i][r][f][c]]
                    a == [i \in DOMAIN as |-> as[i][r][f][c]]
                    w == IF ev.mono = 0 THEN One ELSE mo[r][f][c]
                    N == RMul(sq(v), w)
                    z == Zt[r][f][c]
                    \* rounding: each value is exact to 1e-12 of its magnitude sum, the mass likewise
                    slack == RSum(<<RMul("1e-9", N),
                                    RMul(w, RSum([i \in DOMAIN v |-> RAdd(RMul("2e-12", RMul(RAbs(v[i]), a[i])), RMul("1e-24", RMul(a[i], a[i])))])),
                                    RMul(N, RMul("1e-11", RDiv(Za[r][f][c], z))), "1e-50">>)
                    o == ev.out[b][r][f][c]
                IN \/ RLe(z, RMul("1e-6", Za[r][f][c]))       \* ill-conditioned mass: not judged
                   \/ o # "nan" /\ o # "inf" /\ RLe(RAbs(RSub(RMul(IF o = "-inf" THEN Z ELSE RExp(o), z), N)), slack)
  IN SV("sos_value", Len(ev.out) = Len(ev.rows) /\ \A b \in DOMAIN ev.rows : ok(b))
SosClauses(store, ev) ==
  IF ev.refused THEN SV("refused", SosMayRefuse(store, ev))
  ELSE IF SosNoMass(store, ev) THEN {"incompatible_accepted"}
  ELSE SosValues(store, ev)
(* total mass one over the joint domain (component 1 gives the scope) *)
SosMassClauses(store, ev) ==
  IF SosNoMass(store, ev) THEN {} ELSE
  LET Zt == SosZ(store, ev)
      Za == SosZ(AbsOf(store), ev) IN
  SV("mass", \A r \in DOMAIN Zt : \A f \in DOMAIN Zt[r] : \A c \in DOMAIN Zt[r][f] :
       \/ RLe(Zt[r][f][c], RMul("1e-6", Za[r][f][c]))
       \/ RClose(RSum([b \in DOMAIN ev.out |-> RExp(ev.out[b][r][f][c])]), One, "1e-8"))

(* samples of a scalar sum of squares over a finite domain: counts per joint state (rows).  Judged where  *)
(* the independence sampler has provably mixed: it forgets at rate 1 - 1/M per step, M the largest ratio  *)
(* of target to proposal.                                                                                 *)
SosSmpClauses(store, ev) ==
  LET A == AbsOf(store)
      v(i) == TLCEval([b \in DOMAIN ev.rows |-> LET x == Eval(store, ev.comps[i], ev.rows[b])[1][1][1] IN RMul(x, x)])
      p(i) == TLCEval([b \in DOMAIN ev.rows |-> Eval(store, ev.props[i], ev.rows[b])[1][1][1]])
      sqs == TLCEval([i \in DOMAIN ev.comps |-> v(i)])
      prs == TLCEval([i \in DOMAIN ev.comps |-> p(i)])
      zs == TLCEval([i \in DOMAIN ev.comps |-> RSum(sqs[i])])
      M(i) == RMax([b \in DOMAIN ev.rows |-> IF REq(prs[i][b], Z) THEN "1e9" ELSE RDiv(sqs[i][b], RMul(zs[i], prs[i][b]))])
      mixed == \A i \in DOMAIN ev.comps : RLt("1e-6", zs[i]) /\ RLe(M(i), "4")
      tot == RSum(zs)
      prob(b) == RDiv(RSum([i \in DOMAIN sqs |-> sqs[i][b]]), tot)
      pl(n, q) == IF RLt(q, "1e-12") THEN n = 0
                  ELSE LET d == RSub(RInt(n), RMul(RInt(ev.n), q)) IN RLe(RMul(d, d), RMul("49", RAdd(RMul(RInt(ev.n), q), "9")))
  IN SV("outside_domain", SumQ(ev.counts) = ev.n)
     \cup (IF ~mixed THEN {} ELSE SV("distribution", \A b \in DOMAIN ev.rows : pl(ev.counts[b], prob(b))))

(* a component built from a template: the same circuit but for the sums' signs and a perturbation of ev.noise *)
RECURSIVE MatchSoc(_, _, _, _)
MatchSoc(store, t, c, ev) ==
  LET a == store[t]  b == store[c] IN
  /\ a.op = b.op /\ Len(a.ins) = Len(b.ins)
  /\ IF a.op = "leaf" THEN [a EXCEPT !.ins = <<>>] = [b EXCEPT !.ins = <<>>] ELSE TRUE
  /\ a.op = "sum" =>
       /\ Len(a.w) = Len(b.w)
       /\ \A r \in DOMAIN a.w : \A f \in DOMAIN a.w[r] : \A o \in DOMAIN a.w[r][f] : \A i \in DOMAIN a.w[r][f][o] :
            LET x == a.w[r][f][o][i]  y == b.w[r][f][o][i]
                tol == RAdd(RMul("8", ev.noise), "1e-9")
                plus == RLe(RAbs(RSub(y, x)), tol)
                minus == RLe(RAbs(RAdd(y, x)), tol)
            IN CASE ~ev.signed -> RLe(RAbs(RSub(y, x)), "1e-9")
                 [] ev.flip = "0" -> plus
                 [] ev.flip = "1" -> minus
                 [] OTHER -> plus \/ minus
  /\ \A k \in DOMAIN a.ins : MatchSoc(store, a.ins[k], b.ins[k], ev)
BsocClauses(store, ev) ==
  SV("number_of_components", Len(ev.comps) = ev.want)
  \cup SV("not_the_template", \A i \in DOMAIN ev.comps : MatchSoc(store, ev.t, ev.comps[i], ev))

(* the monotone proposal of a signed circuit *)
RECURSIVE MatchProp(_, _, _, _)
MatchProp(store, s, p, ev) ==
  LET a == store[s]  b == store[p]
      unit(x, y) == LET z == TLCEval([i \in DOMAIN x |-> RAdd(RAbs(x[i]), ev.eps)])  t == RSum(z) IN
                    \A i \in DOMAIN x : RClose(y[i], RDiv(z[i], t), "1e-9")
  IN /\ a.op = b.op /\ Len(a.ins) = Len(b.ins)
     /\ a.op = "leaf" =>
          IF a.dist = "signed_categorical"
          THEN b.dist = "categorical" /\ a.scope = b.scope /\ Len(a.par) = Len(b.par)
               /\ \A r \in DOMAIN a.par : \A f \in DOMAIN a.par[r] : \A c \in DOMAIN a.par[r][f] : unit(a.par[r][f][c], b.par[r][f][c])
          ELSE [a EXCEPT !.ins = <<>>] = [b EXCEPT !.ins = <<>>]
     /\ a.op = "sum" => \A r \in DOMAIN a.w : \A f \in DOMAIN a.w[r] : \A o \in DOMAIN a.w[r][f] : unit(a.w[r][f][o], b.w[r][f][o])
     /\ \A k \in DOMAIN a.ins : MatchProp(store, a.ins[k], b.ins[k], ev)
PropClauses(store, ev) == SV("not_the_monotone_proposal", MatchProp(store, ev.m, ev.p, ev))
=============================================================================
