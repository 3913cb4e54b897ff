---------------------------------- MODULE EM ----------------------------------
(* One expectation-maximisation step of a circuit.  Every entry of every node  *)
(* is a sum of weighted products of entries of its children ("terms"); the     *)
(* posterior responsibility of the objective flows from the root through the   *)
(* terms in proportion to their share of the entry's value.                    *)
EXTENDS Circuit, Mle

Term(w, ix, es) == [w |-> w, ix |-> ix, es |-> es]
(* child k, repetition, feature, channel *)
Loc(cv, k, r, f, c) == <<k, Bc(Len(cv[k]), r), f, Bc(Len(cv[k][1][1]), c)>>
(* position i along the concatenated features / channels: <<child, position>> *)
CatPos(lens, i) ==
  LET k == CHOOSE k \in DOMAIN lens : SumQ(SubSeq(lens, 1, k - 1)) < i /\ i <= SumQ(SubSeq(lens, 1, k))
  IN <<k, i - SumQ(SubSeq(lens, 1, k - 1))>>
FLens(cv) == [k \in DOMAIN cv |-> FeatT(cv[k])]
CLens(cv) == [k \in DOMAIN cv |-> ChanT(cv[k])]
AtF(cv, r, i, c) == LET p == CatPos(FLens(cv), i) IN Loc(cv, p[1], r, p[2], c)
AtC(cv, r, f, i) == LET p == CatPos(CLens(cv), i) IN Loc(cv, p[1], r, f, p[2])
(* entry f of part k of a split product *)
AtP(n, cv, k, r, f, c) ==
  IF n.split.kind = "none" THEN Loc(cv, k, r, f, c)
  ELSE Loc(cv, 1, r, SplitPart(n.split, FeatT(cv[1]), k)[f], c)
NParts(n, cv) == IF n.split.kind = "none" THEN Len(cv) ELSE n.split.k

Terms(n, cv, r, f, o) ==
  CASE n.op = "id" -> <<Term(One, <<>>, <<<<1, r, f, o>>>>)>>
    [] n.op = "cat1" -> <<Term(One, <<>>, <<AtF(cv, r, f, o)>>)>>
    [] n.op = "cat2" -> <<Term(One, <<>>, <<AtC(cv, r, f, o)>>)>>
    [] n.op = "sum" ->
         LET q == Bc(Len(n.w), r) IN
         [i \in DOMAIN n.w[q][f][o] |-> Term(n.w[q][f][o][i], <<q, f, o, i>>, <<AtC(cv, r, f, i)>>)]
    [] n.op = "esum" ->
         LET Co == Len(n.w[1][1][1])  ci == ((o - 1) \div Co) + 1  co == ((o - 1) % Co) + 1 IN
         [i \in DOMAIN cv |-> Term(n.w[r][f][ci][co][i], <<r, f, ci, co, i>>, <<Loc(cv, i, r, f, ci)>>)]
    [] n.op = "rmix" -> [q \in DOMAIN cv[1] |-> Term(n.w[f][o][q], <<f, o, q>>, <<<<1, q, f, o>>>>)]
    [] n.op = "prod" -> <<Term(One, <<>>, [g \in 1..SumQ(FLens(cv)) |-> AtF(cv, r, g, o)])>>
    [] n.op = "eprod" -> <<Term(One, <<>>, [k \in 1..NParts(n, cv) |-> AtP(n, cv, k, r, f, o)])>>
    [] n.op = "oprod" ->
         LET cs == IF n.split.kind = "none" THEN CLens(cv) ELSE [k \in 1..n.split.k |-> ChanT(cv[1])]
         IN <<Term(One, <<>>, [k \in 1..NParts(n, cv) |-> AtP(n, cv, k, r, f, Digit(cs, o, k))])>>
    [] n.op = "einsum" ->
         LET I == Len(n.w[r][f][o])  J == Len(n.w[r][f][o][1]) IN
         [t \in 1..(I * J) |-> LET i == ((t - 1) \div J) + 1  j == ((t - 1) % J) + 1 IN
            Term(n.w[r][f][o][i][j], <<r, f, o, i, j>>, <<AtP(n, cv, 1, r, f, i), AtP(n, cv, 2, r, f, j)>>)]
    [] n.op = "linsum" ->
         [c \in DOMAIN n.w[r][f][o] |-> Term(n.w[r][f][o][c], <<r, f, o, c>>, <<AtP(n, cv, 1, r, f, c), AtP(n, cv, 2, r, f, c)>>)]
    [] n.op = "fact" -> <<Term(One, <<>>, [q \in DOMAIN n.groups[r][f] |-> AtF(cv, r, n.groups[r][f][q], o)])>>
    [] n.op = "pconv" -> <<Term(One, <<>>, [q \in DOMAIN n.groups[f] |-> <<1, r, n.groups[f][q], o>>])>>
    [] n.op = "sconv" ->
         [i \in DOMAIN n.w[r][n.kpos[f]][o] |-> Term(n.w[r][n.kpos[f]][o][i], <<r, n.kpos[f], o, i>>, <<Loc(cv, 1, r, f, i)>>)]

ValOf(cv, e) == cv[e[1]][e[2]][e[3]][e[4]]
TermVal(cv, t) == RMul(t.w, RProd([q \in DOMAIN t.es |-> ValOf(cv, t.es[q])]))
(* the normal form denotes the same table as Inner (checked by CircuitMC) *)
ByTerms(n, cv, T) ==
  Table(Len(T), Len(T[1]), Len(T[1][1]),
        LAMBDA r, f, c : LET ts == Terms(n, cv, r, f, c) IN RSum([q \in DOMAIN ts |-> TermVal(cv, ts[q])]))

(* all paths of indices into a nested weight table; the trailing k indices are summed over *)
WDims(op) == IF op = "einsum" THEN 2 ELSE 1
RECURSIVE WAt(_, _)
WAt(w, ix) == IF ix = <<>> THEN w ELSE WAt(w[Head(ix)], Tail(ix))
RECURSIVE Paths(_, _)
Paths(w, d) == IF d = 0 THEN {<<>>} ELSE UNION {{<<i>> \o p : p \in Paths(w[i], d - 1)} : i \in DOMAIN w}
Depth(op) == CASE op = "rmix" -> 3 [] op \in {"sum", "linsum", "sconv"} -> 4 [] OTHER -> 5
HasWeights(n) == n.op \in {"sum", "esum", "rmix", "einsum", "linsum", "sconv"}

ZeroTab(T) == Table(Len(T), Len(T[1]), Len(T[1][1]), LAMBDA r, f, c : Z)
OneTab(T) == Table(Len(T), Len(T[1]), Len(T[1][1]), LAMBDA r, f, c : One)
Entries(T) == {<<r, f, c>> : r \in 1..Len(T), f \in 1..Len(T[1]), c \in 1..Len(T[1][1])}

(* contributions of one node's responsibilities: <<child node, entry, weight path, amount>> *)
Contribs(n, cv, T, G) ==
  FoldLeft(LAMBDA acc, e :
     IF REq(G[e[1]][e[2]][e[3]], Z) \/ REq(T[e[1]][e[2]][e[3]], Z) THEN acc
     ELSE acc \o [q \in DOMAIN Terms(n, cv, e[1], e[2], e[3]) |->
            LET t == Terms(n, cv, e[1], e[2], e[3])[q]
            IN [ix |-> t.ix, es |-> t.es,
                amt |-> RDiv(RMul(G[e[1]][e[2]][e[3]], TermVal(cv, t)), T[e[1]][e[2]][e[3]])]],
     <<>>, SetToSeq(Entries(T)))

(* responsibilities of every node's entries and expected counts of every weight for one row *)
Flow(store, m, row) ==
  LET Ts == EvalAll(store, m, LAMBDA n : LeafT(n, row))
      need == Reach(store, m)
      init == [G |-> [i \in 1..m |-> IF i \notin need THEN <<>> ELSE IF i = m THEN OneTab(Ts[i]) ELSE ZeroTab(Ts[i])],
               N |-> [i \in 1..m |-> IF i \in need /\ HasWeights(store[i])
                                     THEN [p \in Paths(store[i].w, Depth(store[i].op)) |-> Z] ELSE <<>>]]
      step(S, i) ==
        IF i \notin need \/ store[i].op = "leaf" THEN S
        ELSE LET n == store[i]
                 cv == [k \in DOMAIN n.ins |-> Ts[n.ins[k]]]
                 cs == TLCEval(Contribs(n, cv, Ts[i], S.G[i]))
             IN TLCEval([G |-> FoldLeft(LAMBDA A, q :
                          FoldLeft(LAMBDA B, e : [B EXCEPT ![n.ins[e[1]]] = [@ EXCEPT ![e[2]] = [@ EXCEPT ![e[3]] = [@ EXCEPT ![e[4]] = RAdd(@, q.amt)]]]],
                                   A, q.es), S.G, cs),
                 N |-> IF ~HasWeights(n) THEN S.N
                       ELSE [S.N EXCEPT ![i] = FoldLeft(LAMBDA A, q : [A EXCEPT ![q.ix] = RAdd(@, q.amt)], @, cs)]])
  IN FoldLeft(step, init, [k \in 1..m |-> m + 1 - k])

(* -------- judging one step: flows of all rows (a sequence), parameters before and after -------- *)
Tiny == "1e-4"
WeightOk(store, i, neww, flows, tol) ==
  LET n == store[i]
      P == Paths(n.w, Depth(n.op))
      d == Depth(n.op) - WDims(n.op)
      cnt == TLCEval([p \in P |-> RSum([b \in DOMAIN flows |-> flows[b].N[i][p]])])
      grp(p) == SetToSeq({q \in P : SubSeq(q, 1, d) = SubSeq(p, 1, d)})
      tot(p) == RSum([k \in DOMAIN grp(p) |-> cnt[grp(p)[k]]])
  IN Paths(neww, Depth(n.op)) = P /\
     \A p \in P : LET t == tot(p) IN RLt(t, Tiny) \/ RClose(WAt(neww, p), RDiv(cnt[p], t), tol)
NormOk(store, i, neww) ==
  LET n == store[i]
      P == Paths(neww, Depth(n.op))
      d == Depth(n.op) - WDims(n.op)
  IN \A p \in P : /\ RFin(WAt(neww, p)) /\ RLe(Z, WAt(neww, p))
                  /\ LET g == SetToSeq({q \in P : SubSeq(q, 1, d) = SubSeq(p, 1, d)})
                     IN RClose(RSum([k \in DOMAIN g |-> WAt(neww, g[k])]), One, "1e-9")

(* a leaf after the step: the weighted fit of each cell under its responsibilities *)
LeafOk(store, i, after, rows, flows, bias, tol) ==
  LET n == store[i]
      g(r, f, c) == TLCEval([b \in DOMAIN rows |-> RAdd(flows[b].G[i][r][f][c], "1e-12")])
      used(r, f, c) == RLe(Tiny, RSum(g(r, f, c)))
  IN IF n.dist = "cltree"
     THEN LET X == [b \in DOMAIN rows |-> [k \in DOMAIN n.scope |-> rows[b][n.scope[k] + 1]]]
          IN \A r \in DOMAIN n.cpt : \A c \in DOMAIN n.cpt[r] :
               used(r, 1, c) => TreeFitOk(n.parent, after.cpt[r][c], X, g(r, 1, c), after.alpha, tol)
     ELSE \A r \in DOMAIN n.par : \A f \in DOMAIN n.par[r] : \A c \in DOMAIN n.par[r][f] :
            used(r, f, c) => FitOk(n.dist, n.par[r][f][c], n.aux, after.par[r][f][c],
                                   [b \in DOMAIN rows |-> rows[b][n.scope[f] + 1]], g(r, f, c), bias, tol)
LeafDomOk(store, i, after) ==
  store[i].dist = "cltree" \/
  \A r \in DOMAIN after.par : \A f \in DOMAIN after.par[r] : \A c \in DOMAIN after.par[r][f] :
     DomainOk(store[i].dist, after.par[r][f][c])
=============================================================================
