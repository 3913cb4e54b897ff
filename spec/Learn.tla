-------------------------------- MODULE Learn --------------------------------
(* The structure learners, as functions of the data and of the answers of the *)
(* user-supplied clustering, partitioning and affinity procedures.  An answer *)
(* is looked up by the slice of the data it was given for.  The result is the *)
(* distribution the learned circuit must have, as a tree of mixtures and      *)
(* products with fitted leaves (channels: n equal columns unless cat/prod).   *)
EXTENDS ChowLiu

LRows(ev) == Iota(Len(ev.data))
Cols(ev, rows, S) == [i \in DOMAIN rows |-> [k \in DOMAIN S |-> ev.data[rows[i]][S[k] + 1]]]
Full(ev, rows) == [i \in DOMAIN rows |-> ev.data[rows[i]]]
Answer(tab, X) == SelectSeq(tab, LAMBDA a : a.x = X)
LBad(why) == [k |-> "bad", why |-> why, n |-> 1]
Distinct(s) == {s[i] : i \in DOMAIN s}
Ascending(S) == SetToSortSeq(S, <)
Ones(rows) == [i \in DOMAIN rows |-> One]
Share(rows, all) == RDiv(RInt(Len(rows)), RInt(Len(all)))

(* one fitted leaf column per variable, by the template that covers it *)
FitLeaves(ev, rows, S) ==
  LET cover(v) == {t \in DOMAIN ev.tmpl : v \in Rg(ev.tmpl[t].scope)}
      cell(v) == LET T == ev.tmpl[CHOOSE t \in cover(v) : TRUE]
                     i == CHOOSE i \in DOMAIN T.scope : T.scope[i] = v
                     xs == Cols(ev, rows, <<v>>)
                 IN [v |-> v, dist |-> T.dist, aux |-> T.aux,
                     par |-> TLCEval(Estimate(T.dist, T.par[i], T.aux, [b \in DOMAIN xs |-> xs[b][1]], Ones(rows), TRUE))]
  IN IF rows = <<>> \/ \E i \in DOMAIN S : cover(S[i]) = {} THEN LBad("no_leaf")
     ELSE [k |-> "fit", cells |-> TLCEval([i \in DOMAIN S |-> cell(S[i])]), n |-> ev.loc]

ProdNode(kids, n) == [k |-> "prod", kids |-> kids, n |-> n]
MixNode(kids, ws) == [k |-> "mix", kids |-> kids, ws |-> ws, n |-> 1]
CatNode(kids) == [k |-> "cat", kids |-> kids, n |-> SumQ([i \in DOMAIN kids |-> kids[i].n])]
MaxN(kids) == Max({kids[i].n : i \in DOMAIN kids})

-----------------------------------------------------------------------------
(* LearnSPN: split the variables if they fall into independent groups, else cluster the rows *)
RECURSIVE Spn(_, _, _, _)
Spn(ev, rows, S, mi) ==
  IF Len(S) < ev.mf THEN FitLeaves(ev, rows, S)
  ELSE
  LET X == Cols(ev, rows, S)
      pa == Answer(ev.part, X)
      ids == IF Len(rows) = 1 THEN [i \in DOMAIN S |-> 0] ELSE pa[1].ans
      groups == Ascending(Distinct(ids))
      group(g) == LET at == SelectSeq(Iota(Len(S)), LAMBDA i : ids[i] = g) IN [k \in DOMAIN at |-> S[at[k]]]
  IN IF Len(rows) > 1 /\ pa = <<>> THEN LBad("partitioning_not_asked")
     ELSE IF Len(groups) > 1
     THEN ProdNode(TLCEval([g \in DOMAIN groups |-> Spn(ev, rows, group(groups[g]), mi)]), Max({ev.loc, ev.oc}))
     ELSE IF Len(rows) < mi THEN FitLeaves(ev, rows, S)
     ELSE
     LET c1 == Answer(ev.clus, Full(ev, rows))
         ca == IF c1 # <<>> THEN c1 ELSE Answer(ev.clus, X)
         mix(lab) ==
           LET ks == Ascending(Distinct(lab))
               sub(c) == SelectSeq(Iota(Len(rows)), LAMBDA i : lab[i] = c)
               rs(c) == LET at == sub(c) IN [k \in DOMAIN at |-> rows[at[k]]]
           IN MixNode(TLCEval([c \in DOMAIN ks |-> Spn(ev, rs(ks[c]), S, IF Len(ks) = 1 THEN Len(rows) + 1 ELSE mi)]),
                      TLCEval([c \in DOMAIN ks |-> Share(sub(ks[c]), rows)]))
     IN IF ca = <<>> THEN LBad("clustering_not_asked")
        ELSE IF ev.oc = 1 THEN mix(ca[1].ans[1])
        ELSE CatNode(TLCEval([i \in 1..ev.oc |-> mix(ca[1].ans[i])]))

-----------------------------------------------------------------------------
(* Prometheus: cluster the rows, then mix, per cluster, the products of all divisions of the *)
(* variables along the maximum spanning tree of their affinities                              *)
CorrMatrix(X) ==
  LET D == Len(X[1]) N == Len(X)
      mean == TLCEval([i \in 1..D |-> RDiv(RSum([b \in 1..N |-> X[b][i]]), RInt(N))])
      dev == TLCEval([i \in 1..D |-> [b \in 1..N |-> RSub(X[b][i], mean[i])]])
      nrm == TLCEval([i \in 1..D |-> RSqrt(RDot(dev[i], dev[i]))])
  IN TLCEval([i \in 1..D |-> [j \in 1..D |-> IF REq(nrm[i], Z) \/ REq(nrm[j], Z) THEN Z
                               ELSE RAbs(RDiv(RDot(dev[i], dev[j]), RMul(nrm[i], nrm[j])))]])
RECURSIVE Prom(_, _, _, _)
Prom(ev, rows, S, ch) ==
  IF Len(S) < ev.mf \/ Len(rows) < ev.mi THEN FitLeaves(ev, rows, S)
  ELSE
  LET X == Cols(ev, rows, S)
      ca == Answer(ev.clus, X)
      lab == ca[1].ans[IF Len(ca[1].ans) = 1 THEN 1 ELSE ch]
      ks == Ascending(Distinct(lab))
      rs(c) == LET at == SelectSeq(Iota(Len(rows)), LAMBDA i : lab[i] = c) IN [k \in DOMAIN at |-> rows[at[k]]]
      used == SelectSeq(ks, LAMBDA c : Len(rs(c)) >= 2)
      aff(c) == IF ev.corr THEN <<[ans |-> CorrMatrix(Cols(ev, rs(c), S))]>> ELSE Answer(ev.part, Cols(ev, rs(c), S))
      prods(c) ==
        LET ways == Linkage(aff(c)[1].ans, Len(S))
            way(w) == LET gs == SetToSeq(ways[w])
                          kids == TLCEval([g \in DOMAIN gs |->
                                    Prom(ev, rs(c), LET m == Ascending(gs[g]) IN [k \in DOMAIN m |-> S[m[k]]], 1)])
                      IN [node |-> ProdNode(kids, MaxN(kids)), w |-> RDiv(Share(rs(c), rows), RInt(Len(ways)))]
        IN TLCEval([w \in DOMAIN ways |-> way(w)])
  IN IF ca = <<>> THEN LBad("clustering_not_asked")
     ELSE IF Len(S) = 1 \/ used = <<>> THEN FitLeaves(ev, rows, S)
     ELSE IF \E i \in DOMAIN used : aff(used[i]) = <<>> THEN LBad("affinity_not_asked")
     ELSE LET all == FoldLeft(LAMBDA a, c : a \o prods(c), <<>>, used)
          IN IF Len(all) = 1 THEN all[1].node
             ELSE MixNode([i \in DOMAIN all |-> all[i].node], NormSeq([i \in DOMAIN all |-> all[i].w]))
PromRoot(ev) ==
  IF ev.oc = 1 THEN Prom(ev, LRows(ev), ev.scope, 1)
  ELSE CatNode(TLCEval([i \in 1..ev.oc |-> Prom(ev, LRows(ev), ev.scope, i)]))

-----------------------------------------------------------------------------
(* cutset networks: condition on the variables in a fixed order *)
Entropy(ev, v) ==
  LET X == Cols(ev, LRows(ev), <<v>>)
      n(x) == Cardinality({b \in DOMAIN X : REq(X[b][1], RInt(x - 1))})
  IN RSum([x \in 1..ev.card[v + 1] |-> IF n(x) = 0 THEN Z
            ELSE LET p == RDiv(RInt(n(x)), RInt(Len(X))) IN RNeg(RMul(p, RLn(p)))])
Orders(ev) ==
  LET H == TLCEval([i \in DOMAIN ev.scope |-> Entropy(ev, ev.scope[i])])
      Perms == {p \in [DOMAIN ev.scope -> DOMAIN ev.scope] : Cardinality({p[i] : i \in DOMAIN p}) = Len(ev.scope)}
      ok(p) == ev.cond = "random" \/ \A i \in 1..(Len(p) - 1) : RLe(H[p[i + 1]], RAdd(H[p[i]], "1e-6"))
  IN {[i \in DOMAIN p |-> ev.scope[p[i]]] : p \in {q \in Perms : ok(q)}}
CatFit(ev, rows, v) ==
  LET X == Cols(ev, rows, <<v>>)
      old == [x \in 1..ev.card[v + 1] |-> Z]
  IN [v |-> v, dist |-> "categorical", aux |-> <<>>,
      par |-> TLCEval(Estimate("categorical", old, <<>>, [b \in DOMAIN X |-> X[b][1]], Ones(rows), TRUE))]
CLeaf(ev, rows, S) ==
  IF Len(S) = 1 \/ Len(rows) = 1
  THEN [k |-> "fit", cells |-> TLCEval([i \in DOMAIN S |-> CatFit(ev, rows, S[i])]), n |-> ev.oc]
  ELSE LET fits == {t \in DOMAIN ev.trees :
                      LET T == ev.trees[t] X == TLCEval(Cols(ev, rows, T.scope)) IN
                      Rg(T.scope) = Rg(S) /\ TreeFitOk(T.parent, T.cpt, X, Ones(rows), ev.alpha, "1e-6")
                      /\ ChowLiuTree(T.parent, X, Ones(rows), Len(T.cpt[1][1]), ev.alpha, "1e-6")}
       IN IF fits = {} THEN LBad("no_tree_fitted_on_this_slice")
          ELSE [k |-> "tree", t |-> CHOOSE t \in fits : TRUE, n |-> ev.oc]
RECURSIVE Cnet(_, _, _, _)
Cnet(ev, rows, S, order) ==
  IF Len(S) <= ev.mf \/ Len(rows) < ev.mi \/ Len(S) = 1 THEN CLeaf(ev, rows, S)
  ELSE LET v == SelectSeq(order, LAMBDA u : u \in Rg(S))[1]
           rest == SelectSeq(S, LAMBDA u : u # v)
           rs(x) == SelectSeq(rows, LAMBDA b : REq(ev.data[b][v + 1], RInt(x)))
           xs == SelectSeq([x \in 1..ev.card[v + 1] |-> x - 1], LAMBDA x : rs(x) # <<>>)
           kid(x) == ProdNode(<<[k |-> "hot", v |-> v, x |-> x, n |-> ev.oc], Cnet(ev, rs(x), rest, order)>>, ev.oc)
       IN IF Len(xs) = 1 THEN kid(xs[1])
          ELSE MixNode(TLCEval([i \in DOMAIN xs |-> kid(xs[i])]), TLCEval([i \in DOMAIN xs |-> Share(rs(xs[i]), rows)]))

-----------------------------------------------------------------------------
RECURSIVE Whys(_)
Whys(t) == CASE t.k = "bad" -> {t.why}
             [] t.k \in {"prod", "mix", "cat"} -> UNION {Whys(t.kids[i]) : i \in DOMAIN t.kids}
             [] OTHER -> {}
(* values of the channels at a complete row *)
RECURSIVE TVal(_, _, _)
TVal(ev, t, row) ==
  LET same(x, n) == [c \in 1..n |-> x] IN
  CASE t.k = "fit" -> same(RProd([i \in DOMAIN t.cells |->
                          Density(t.cells[i].dist, t.cells[i].par, t.cells[i].aux, row[t.cells[i].v + 1])]), t.n)
    [] t.k = "hot" -> same(IF REq(row[t.v + 1], RInt(t.x)) THEN One ELSE Z, t.n)
    [] t.k = "tree" ->
         LET T == ev.trees[t.t]
             at(i) == RFloor(row[T.scope[i] + 1]) + 1
         IN same(RProd([i \in DOMAIN T.scope |-> T.cpt[i][IF T.parent[i] = 0 THEN 1 ELSE at(T.parent[i])][at(i)]]), t.n)
    [] t.k = "prod" -> LET kv == TLCEval([i \in DOMAIN t.kids |-> TVal(ev, t.kids[i], row)])
                       IN TLCEval([c \in 1..t.n |-> RProd([i \in DOMAIN kv |-> kv[i][IF Len(kv[i]) < t.n THEN 1 ELSE c]])])
    [] t.k = "mix" -> <<RSum([i \in DOMAIN t.kids |->
                          LET kv == TVal(ev, t.kids[i], row) IN RMul(t.ws[i], RDiv(RSum(kv), RInt(Len(kv))))])>>
    [] t.k = "cat" -> FoldLeft(LAMBDA a, kid : a \o TVal(ev, kid, row), <<>>, t.kids)

(* boundary estimates may be moved inside the domain by a small margin *)
DensIs(o, x) == o # "nan" /\ (RLogIs(o, x, "1e-6") \/ RClose(IF o = "-inf" THEN Z ELSE RExp(o), x, "1e-7"))
Denotes(ev, t) ==
  \A b \in DOMAIN ev.rows :
    LET v == TVal(ev, t, ev.rows[b])
        o == ev.out[b]
    IN Len(o) = 1 /\ \A c \in DOMAIN o[1][1] :
         LET x == v[IF ev.alg = "cnet" \/ Len(v) = 1 THEN 1 ELSE c]
         IN DensIs(IF Len(o[1]) = 1 THEN o[1][1][c] ELSE RSum([f \in DOMAIN o[1] |-> o[1][f][c]]), x)
LearnedClauses(st, ev) ==
  LET V0(n, ok) == IF ok THEN {} ELSE {n}
      shape == V0("scope", Rg(ev.mscope) = Rg(ev.scope) /\ Len(ev.mscope) = Cardinality(Rg(ev.scope)))
      one(t) == IF Whys(t) # {} THEN Whys(t)
                ELSE V0("channels", Len(ev.out[1][1][1]) = t.n) \cup V0("distribution", Denotes(ev, t))
  IN shape \cup
     CASE ev.alg = "spn" -> one(Spn(ev, LRows(ev), ev.scope, ev.mi))
       [] ev.alg = "prom" -> one(PromRoot(ev))
       [] ev.alg = "cnet" ->
            V0("distribution", \E p \in Orders(ev) :
                 LET t == Cnet(ev, LRows(ev), ev.scope, p) IN Whys(t) = {} /\ Denotes(ev, t))
==============================================================================
