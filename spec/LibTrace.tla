------------------------------- MODULE LibTrace ------------------------------
(* Validates recorded histories of SPFlow calls against Circuit.tla.          *)
(* State: the modules created so far in the history (store).  Each event is   *)
(* one public call with its arguments and its observed result.  The verdict   *)
(* is total: every event is judged, each violated clause is printed, and the  *)
(* history continues with the state the specification prescribes.             *)
EXTENDS Sampling, EM, Dsl, Builders, Bayes, Signed, Learn, Structure, ImageView, BestEpoch, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, store
vars == <<t, l, store>>

Tol == "1e-9"
Has(ev, f) == f \in DOMAIN ev
TolOf(ev) == IF Has(ev, "tol") THEN ev.tol ELSE Tol
Idx3(T) == {<<r, f, c>> : r \in 1..Len(T), f \in 1..Len(T[1]), c \in 1..Len(T[1][1])}
SameDims(out, T) ==
  /\ Len(out) = Len(T)
  /\ \A r \in 1..Len(T) : Len(out[r]) = Len(T[r]) /\ \A f \in 1..Len(T[r]) : Len(out[r][f]) = Len(T[r][f])
LogTableIs(out, T, tol) ==
  /\ SameDims(out, T)
  /\ \A q \in Idx3(T) : RLogIs(out[q[1]][q[2]][q[3]], T[q[1]][q[2]][q[3]], tol)

V(name, ok) == IF ok THEN {} ELSE {name}

-----------------------------------------------------------------------------
(* judgement of each event: the set of violated clauses *)
(* the groups a factorize layer drew: a partition of the input features, of balanced sizes, per repetition *)
PartViol(ev) ==
  IF ev.node.op # "fact" THEN {}
  ELSE LET F == ShapeOf(store, ev.node.ins[1])[1]
           G == 2 ^ ev.node.depth
           Part(gs) == /\ Len(gs) = G
                       /\ UNION {Rg(gs[g]) : g \in DOMAIN gs} = 1..F
                       /\ SumQ([g \in DOMAIN gs |-> Len(gs[g])]) = F
                       /\ \A g \in DOMAIN gs : Len(gs[g]) \in {F \div G, (F + G - 1) \div G}
       IN V("partition", \A r \in DOMAIN ev.node.groups : Part(ev.node.groups[r]))
ObsViol(st, m, o) ==
       LET sh == ShapeOf(st, m)
           FS == FScope(st, m)
           n == st[m]
           I1 == FScope(st, n.ins[1])
           (* named deviations the existing tests pin down (known findings) *)
           Pairs == n.op \in {"einsum", "linsum"} /\ n.split.kind \in {"cons", "idx"}
                    /\ \A r \in 1..Len(FS) : \A f \in 1..Len(FS[r]) :
                         Rg(o.fs[r][f]) = I1[Bc(Len(I1), r)][2 * f - 1] \cup I1[Bc(Len(I1), r)][2 * f]
           Cart == n.op = "oprod" /\ n.split.kind = "none"
                   /\ \A r \in 1..Len(o.fs) : Len(o.fs[r]) = ProdLen([k \in DOMAIN n.ins |-> Len(FScope(st, n.ins[k])[1])])
           InReps == n.op = "rmix" /\ o.shape[3] = ShapeOf(st, n.ins[1])[3]
           TrueFs == \A r \in 1..Min({Len(FS), Len(o.fs)}) :
                       /\ Len(o.fs[r]) = Len(FS[r])
                       /\ \A f \in 1..Len(FS[r]) : Rg(o.fs[r][f]) = FS[r][f]
       IN V("shape", o.shape[1] = sh[1] /\ o.shape[2] = sh[2])
          \cup V(IF InReps THEN "reports_input_repetitions" ELSE "repetitions",
                 o.shape[3] = sh[3] /\ (Has(o, "fs") => Len(o.fs) = Len(FS)))
          \cup V("scope", Rg(o.scope) = ScopeOf(st, m) /\ Len(o.scope) = Cardinality(ScopeOf(st, m)))
          \cup (IF ~Has(o, "fs") \/ TrueFs THEN {}
                ELSE IF n.op \in {"einsum", "linsum"} /\ Len(o.fs) = Len(FS) /\ Len(o.fs[1]) = Len(FS[1]) /\ Pairs
                THEN {"pairs_adjacent_features"}
                ELSE IF Cart THEN {"cartesian_features"}
                ELSE {"feature_scope"})
MkViol(ev) == PartViol(ev) \cup IF ~Has(ev, "obs") THEN {} ELSE LET st == Append(store, ev.node) IN ObsViol(st, Len(st), ev.obs)

(* the per-part scopes a split module over node ev.m reports: ev.fs[r][f][k] is the scope of feature f of part k *)
SplitFsViol(ev) ==
  LET I == FScope(store, ev.m)
      F == Len(I[1])
      K == ev.split.k
      P == [k \in 1..K |-> SplitPart(ev.split, F, k)]
      cell(r, f, k) == Rg(ev.fs[r][f][k])
      dims == /\ Len(ev.fs) = Len(I)
              /\ \A r \in DOMAIN ev.fs : Len(ev.fs[r]) = Len(P[1]) /\ \A f \in DOMAIN ev.fs[r] : Len(ev.fs[r][f]) = K
      true == \A r \in DOMAIN I : \A k \in 1..K : \A f \in DOMAIN P[k] : cell(r, f, k) = I[r][P[k][f]]
      (* the existing tests pin this arrangement down: the parts one after the other, in rows of K *)
      rows(r) == [q \in 1..(K * Len(P[1])) |-> I[r][P[((q - 1) \div Len(P[1])) + 1][((q - 1) % Len(P[1])) + 1]]]
      byrows == \A r \in DOMAIN I : LET z == TLCEval(rows(r)) IN \A f \in DOMAIN ev.fs[r] : \A k \in 1..K : cell(r, f, k) = z[(f - 1) * K + k]
  IN IF ~dims THEN {"part_scopes"} ELSE IF true THEN {} ELSE IF ev.split.kind # "idx" /\ byrows THEN {"parts_arranged_by_rows"} ELSE {"part_scopes"}

(* an architecture builder called with the parameters ev.p; ev.m: the root of what it built *)
BuiltViol(ev) ==
  LET a == Admissible(ev.p) IN
  IF ~ev.accepted THEN V("admissible_rejected", a # "yes")
  ELSE IF a = "no" THEN {"inadmissible_accepted"}
  ELSE V("not_as_requested", Requested(ev.p, store, ev.m))
       \cup V("ill_formed", \A i \in Reach(store, ev.m) : store[i].op \in {"leaf", "pconv", "sconv"} \/ Wf(store, store[i]) # "no")
       \cup V("scope", ScopeOf(store, ev.m) = LScope(ev.p))
       \cup V("shape", ShapeOf(store, ev.m) = <<1, 1, 1>>)
       \cup ObsViol(store, ev.m, ev.obs)

(* a learned circuit over the variables ev.scope *)
ValidViol(ev) ==
  LET reach == Reach(store, ev.m) IN
  V("scope", ScopeOf(store, ev.m) = Rg(ev.scope))
  \cup V("ill_formed", \A i \in reach : store[i].op \in {"leaf", "pconv", "sconv"} \/ Wf(store, store[i]) # "no")
  \cup V("not_normalised", \A i \in reach : HasWeights(store[i]) => NormOk(store, i, store[i].w))
  \cup V("outside_domain", \A i \in reach : store[i].op = "leaf" => LeafDomOk(store, i, store[i]))

(* an arbitrary constructor call followed by one evaluation: accepted exactly when well-formed *)
TryViol(ev) ==
  LET w == Wf(store, ev.node) IN
  CASE w = "no" -> V("ill_formed_accepted", ~ev.accepted)
    [] w = "yes" -> V("well_formed_rejected", ev.accepted)
                    \cup (IF ~ev.accepted \/ ev.node.op = "fact" THEN {}
                          ELSE LET st == Append(store, ev.node)
                                   T == Eval(st, Len(st), ev.row)
                               IN V("value", LogTableIs(ev.out, T, Tol))
                                  \cup V("shape", ev.shape = ShapeOf(st, Len(st)))
                                  \cup (IF ~Has(ev, "fs") THEN {}
                                        ELSE V("feature_scope", [r \in DOMAIN ev.fs |-> [f \in DOMAIN ev.fs[r] |-> Rg(ev.fs[r][f])]]
                                                                = FScope(st, Len(st)))))
    [] OTHER -> IF ~ev.accepted THEN {}
                ELSE V("shape", ev.shape = <<Len(ev.out[1]), Len(ev.out[1][1]), Len(ev.out)>>)

(* likelihood of complete or partial rows *)
LlViol(ev) ==
  LET bad == {i \in 1..Len(ev.rows) : ~LogTableIs(ev.out[i], Eval(store, ev.m, ev.rows[i]), TolOf(ev))}
  IN V("batch_size", Len(ev.out) = Len(ev.rows))
     \cup (IF Len(ev.out) = Len(ev.rows) THEN V("value", bad = {}) ELSE {})
     \cup (IF Has(ev, "rows_after") THEN V("input_modified", ev.rows_after = ev.rows) ELSE {})

(* the same on the scale of probabilities (degenerate parameters) *)
LlAbsViol(ev) ==
  LET T(i) == Eval(store, ev.m, ev.rows[i])
      ok(i) == SameDims(ev.out[i], T(i)) /\ \A q \in Idx3(T(i)) :
                 LET o == ev.out[i][q[1]][q[2]][q[3]] IN o # "nan" /\ RClose(IF o = "-inf" THEN "0" ELSE RExp(o), T(i)[q[1]][q[2]][q[3]], "1e-9")
  IN V("value", \A i \in DOMAIN ev.rows : ok(i))

(* structural marginalisation of node m over the variables ev.rvs *)
MargViol(ev) ==
  LET FS == FScope(store, ev.m)
      gone == Rg(ev.rvs)
      left == ScopeOf(store, ev.m) \ gone
      keep == SelectSeq(Iota(Len(FS[1])), LAMBDA f : \E r \in DOMAIN FS : FS[r][f] \ gone # {})
      row(e) == [v \in DOMAIN e |-> IF v - 1 \in gone THEN "nan" ELSE e[v]]
      ok(i) == LogTableIs(ev.out[i], SelF(Eval(store, ev.m, row(ev.rows[i])), keep), TolOf(ev))
      (* products over splits have no structural marginalisation, and sums refuse repetitions that *)
      (* lose different features: both may refuse                                                   *)
      reach == Reach(store, ev.m)
      touched(i) == ScopeOf(store, i) \cap gone # {} /\ ScopeOf(store, i) \ gone # {}
      raggedIn(i) == LET S == FScope(store, i) IN
        \E f \in 1..Len(S[1]) : (\E r \in DOMAIN S : S[r][f] \ gone = {}) /\ (\E r \in DOMAIN S : S[r][f] \ gone # {})
      mayRefuse == \E i \in reach : store[i].op \in {"eprod", "oprod"} \/ (store[i].op = "sum" /\ touched(i) /\ raggedIn(i))
  IN IF ev.refused THEN V("refused", mayRefuse)
     ELSE IF left = {} THEN V("must_return_none", ev.none)
     ELSE IF ev.none THEN {"returned_none"}
     ELSE V("scope", Rg(ev.scope) = left /\ Len(ev.scope) = Cardinality(left))
          \cup V("shape", ev.shape = <<Len(ev.out[1][1]), Len(ev.out[1][1][1]), Len(ev.out[1])>>)
          \cup V("value", \A i \in DOMAIN ev.rows : ok(i))

(* image views: likelihoods of images, removal of channels, rows and columns *)
ImgRow(sz, ev, vs, img) == IF SizeOk(sz, img) THEN RowOf(sz, vs, ev.nv, img) ELSE <<>>
ImgLlViol(ev) ==
  V("value", /\ Len(ev.out) = Len(ev.imgs)
             /\ \A i \in DOMAIN ev.imgs : LogTableIs(ev.out[i], Eval(store, ev.m, ImgRow(ev.size, ev, ev.vars, ev.imgs[i])), TolOf(ev)))
ImgMargViol(ev) ==
  LET left == LeftVars(ev.size, ev.vars, Rg(ev.c), Rg(ev.h), Rg(ev.w))
      new == NewSize(ev.size, Rg(ev.c), Rg(ev.h), Rg(ev.w))
      gone == SelectSeq(ev.vars, LAMBDA v : ~\E k \in DOMAIN left : left[k] = v)
      sizeOk == ev.refused \/ ev.none \/ ev.newsize = new
  IN V("view_size", sizeOk)
     \cup (IF sizeOk
           THEN MargViol([m |-> ev.m, rvs |-> gone, refused |-> ev.refused, none |-> ev.none, scope |-> ev.scope, shape |-> ev.shape,
                          rows |-> [i \in DOMAIN ev.imgs |-> ImgRow(new, ev, left, ev.imgs[i])], out |-> ev.out])
           ELSE {})

(* continuous mixtures: a compiled model, and the training run that chose it *)
(* the weight every component of a one-entry mixture over the nodes ins carries *)
CmBuiltViol(ev) ==
  LET root == store[ev.m]
      sumN == IF root.op = "sum" THEN root ELSE store[root.ins[1]]
      n == SumQ([i \in DOMAIN sumN.ins |-> ShapeOf(store, sumN.ins[i])[2]])
  IN V("components", n = ev.points)
     \cup V("uniform_weights", \A f \in DOMAIN sumN.w[1] : \A c \in DOMAIN sumN.w[1][f][1] :
                                  RLe(RAbs(RSub(RMul(sumN.w[1][f][1][c], RInt(ev.points)), "1")), ev.tol))
     \cup V("scale_floor", \A i \in Reach(store, ev.m) : store[i].op = "leaf" /\ store[i].dist = "normal" =>
                             RLe(ev.floor, store[i].par[1][1][1][2]))
MeanLog(m, rows) == LET lp == [i \in DOMAIN rows |-> RLn(Eval(store, m, rows[i])[1][1][1])] IN RDiv(RSum(lp), RInt(Len(rows)))
AllLike(m, ev) == \A i \in DOMAIN ev.rows : LogTableIs(ev.out[i], Eval(store, m, ev.rows[i]), ev.tol)
CmPickViol(ev) ==
  LET s == TLCEval([k \in DOMAIN ev.models |-> MeanLog(ev.models[k], ev.data)])
      kept == IF ev.tracked THEN Kept(s, ev.patience, ev.eps) ELSE {Len(s)}
  IN V("best_epoch", \E k \in kept : AllLike(ev.models[k], ev))
CmPointsViol(ev) ==
  LET s == TLCEval([k \in DOMAIN ev.models |-> MeanLog(ev.models[k], ev.data)])
  IN V("score_dropped", Monotone(s, ev.eps))
     \cup V("best_points", \E k \in KeptOfBests(s, ev.patience, ev.eps) : AllLike(ev.models[k], ev))

(* integration points: equally weighted; mapped back to the unit interval every coordinate of a power of two of *)
(* them is an evenly spaced grid (one shift for all points), whatever the order                                   *)
Evenly(us, tol) ==
  LET n == Len(us)
      S == SortSeq(us, LAMBDA a, b : RLt(a, b))
  IN \A k \in 1..n - 1 : RLe(RAbs(RSub(RSub(S[k + 1], S[k]), RDiv("1", RInt(n)))), tol)
PointsViol(ev) ==
  LET n == ev.n IN
  V("point_count", Len(ev.z) = n /\ Len(ev.ws) = n /\ \A i \in DOMAIN ev.z : Len(ev.z[i]) = ev.d)
  \cup V("equal_weights", \A i \in DOMAIN ev.ws : RLe(RAbs(RSub(RMul(ev.ws[i], RInt(n)), "1")), ev.tol))
  \cup (IF Len(ev.z) # n THEN {}
        ELSE V("stratified", n \in {1, 2, 4, 8, 16, 32} =>
                 \A d \in 1..ev.d : Evenly(TLCEval([i \in 1..n |-> RNormCdf(ev.z[i][d])]), ev.tol))
             \cup V("repeated_point", n > 1 => \E i, j \in 1..n : ev.z[i] # ev.z[j]))

(* interval evidence: probability of the box (tiny boxes may be floored) *)
(* a difference of distribution-function values is exact to about 1e-15 *)
BoxIs(obs, p) == RLogIs(obs, p, "1e-7") \/ RLe(RAbs(RSub(RExp(obs), p)), "1e-14")
IvViol(ev) ==
  LET bad == {i \in 1..Len(ev.lo) :
        LET T == EvalIv(store, ev.m, ev.lo[i], ev.hi[i])
        IN ~(SameDims(ev.out[i], T) /\ \A q \in Idx3(T) : BoxIs(ev.out[i][q[1]][q[2]][q[3]], T[q[1]][q[2]][q[3]]))}
  IN V("batch_size", Len(ev.out) = Len(ev.lo))
     \cup (IF Len(ev.out) = Len(ev.lo) THEN V("value", bad = {}) ELSE {})

(* total mass of every output entry over the full joint domain of the scope *)
NormViol(ev) ==
  LET FS == FScope(store, ev.m)
      S == ScopeOf(store, ev.m)
      Mass(r, f, c) == RSum([i \in 1..Len(ev.out) |-> RExp(ev.out[i][r][f][c])])
      Others(f_) == ProdLen([i \in 1..Len(SetToSeq(S \ f_)) |-> ev.dom[SetToSeq(S \ f_)[i] + 1]])
  IN V("mass", \A r \in 1..Len(FS) : \A f \in 1..Len(FS[r]) : \A c \in 1..Len(ev.out[1][r][f]) :
                  RClose(Mass(r, f, c), RInt(Others(FS[r][f])), "1e-9"))

(* a batch of samples of one routing and one evidence row, as counts over a partition into boxes *)
(* (7 sigma: a correct sampler fails with probability below 1e-11 per box)                      *)
Plausible(n, N, p) ==
  IF REq(p, Z) THEN n = 0
  ELSE LET d == RSub(RInt(n), RMul(RInt(N), p))
       IN RLe(RMul(d, d), RMul("49", RAdd(RMul(RInt(N), p), "9")))
SmpViol(ev) ==
  LET base == Route(Eval(store, ev.m, ev.ev), ev.r, ev.ch, ev.mask)
      box(k) == Route(EvalBox(store, ev.m, ev.ev, ev.lo[k], ev.hi[k], ev.soft), ev.r, ev.ch, ev.mask)
  IN V("evidence_or_other_columns_changed", ev.kept = 1)
     \cup V("missing_value_not_filled", ev.filled = 1)
     \cup V("outside_domain", SumQ(ev.counts) = ev.n)
     \cup V("scope", Rg(ev.vars) = RequestScope(store, ev.m, ev.r, ev.mask))
     \cup (IF REq(base, Z) THEN {}
           ELSE V("distribution", \A k \in DOMAIN ev.counts : Plausible(ev.counts[k], ev.n, RDiv(box(k), base))))

(* most-probable-explanation decoding of one row *)
MpeViol(ev) ==
  LET T == EvalAll(store, ev.m, LAMBDA n : LeafT(n, ev.ev))
      S == RequestScope(store, ev.m, ev.r, ev.mask)
      FS == FScope(store, ev.m)
      keep == \A v \in DOMAIN ev.ev : (ev.ev[v] # "nan" \/ v - 1 \notin S) => ev.out[v] = ev.ev[v]
      fill == \A v \in DOMAIN ev.ev : v - 1 \in S => ev.out[v] # "nan"
      ok(f) == MpeOk(store, T, ev.post, ev.ev, ev.out, ev.m, ev.r, f, ev.ch[f])
  IN V("evidence_or_other_columns_changed", keep)
     \cup V("missing_value_not_filled", fill)
     \cup (IF fill /\ (~ev.post \/ ~REq(Route(T[ev.m], ev.r, ev.ch, ev.mask), Z))
           THEN V("not_most_probable", \A f \in DOMAIN ev.ch : ev.mask[f] = 0 \/ ok(f)) ELSE {})

(* gradients of a differentiable batch of samples *)
GradViol(ev) ==
  V("gradient_not_finite", \A k \in DOMAIN ev.grads : ev.grads[k].st # "nan")
  \cup V("no_gradient", \A k \in DOMAIN ev.grads : ev.grads[k].j \in Visited(store, ev.m, FALSE) /\ MustHaveGradient(store, ev.grads[k].j) => ev.grads[k].st = "ok")

(* fitting leaf j to the rows (weights per cell, rows with missing values in the leaf's scope ignored) *)
MleViol(ev) ==
  LET n == store[ev.j]
      sel == SelectSeq(Iota(Len(ev.rows)), LAMBDA b : \A k \in DOMAIN n.scope : ev.rows[b][n.scope[k] + 1] # "nan")
      w(b, r, f, c) == IF Has(ev, "w") THEN ev.w[b][r][f][c] ELSE One
  IN IF n.dist = "cltree"
     THEN LET X == TLCEval([i \in DOMAIN sel |-> [k \in DOMAIN n.scope |-> ev.rows[sel[i]][n.scope[k] + 1]]])
          IN V("estimate", \A r \in DOMAIN n.cpt : \A c \in DOMAIN n.cpt[r] :
               TreeFitOk(n.parent, ev.cpt[r][c], X, [i \in DOMAIN sel |-> w(sel[i], r, 1, c)], ev.alpha, "1e-6"))
     ELSE LET cells == {<<r, f, c>> : r \in DOMAIN n.par, f \in DOMAIN n.par[1], c \in DOMAIN n.par[1][1]}
              xs(f) == [i \in DOMAIN sel |-> ev.rows[sel[i]][n.scope[f] + 1]]
          IN V("shape", Len(ev.par) = Len(n.par) /\ \A r \in DOMAIN n.par : Len(ev.par[r]) = Len(n.par[r])
                        /\ \A f \in DOMAIN n.par[r] : Len(ev.par[r][f]) = Len(n.par[r][f]))
             \cup V("outside_domain", \A q \in cells : DomainOk(n.dist, ev.par[q[1]][q[2]][q[3]]))
             \cup V("estimate", \A q \in cells :
                      FitOk(n.dist, n.par[q[1]][q[2]][q[3]], n.aux, ev.par[q[1]][q[2]][q[3]], xs(q[2]),
                            [i \in DOMAIN sel |-> w(sel[i], q[1], q[2], q[3])], ev.bias, "1e-6"))

(* one expectation-maximisation step of module m on the rows; ev.after: the parameters of every module afterwards *)
WithAfter(st, after) ==
  [i \in DOMAIN st |->
     LET q == SelectSeq(after, LAMBDA a : a.j = i)
     IN IF q = <<>> THEN st[i]
        ELSE IF st[i].op = "leaf" THEN IF st[i].dist = "cltree" THEN [st[i] EXCEPT !.cpt = q[1].cpt] ELSE [st[i] EXCEPT !.par = q[1].par]
        ELSE [st[i] EXCEPT !.w = q[1].w]]
SumLn(T) == RSum([r \in 1..Len(T) |-> RSum([f \in 1..Len(T[r]) |-> RSum([c \in 1..Len(T[r][f]) |-> RLn(T[r][f][c])])])])
AnyZero(T) == \E q \in Idx3(T) : REq(T[q[1]][q[2]][q[3]], Z)
EmViol(ev) ==
  LET flows == TLCEval([b \in DOMAIN ev.rows |-> Flow(store, ev.m, ev.rows[b])])
      Ts == TLCEval([b \in DOMAIN ev.rows |-> Eval(store, ev.m, ev.rows[b])])
      imp == \E b \in DOMAIN Ts : AnyZero(Ts[b])
      reach == Reach(store, ev.m)
      A == SelectSeq(ev.after, LAMBDA a : a.j \in reach)
      W == SelectSeq(A, LAMBDA a : HasWeights(store[a.j]))
      L == SelectSeq(A, LAMBDA a : store[a.j].op = "leaf")
      O == SelectSeq(ev.after, LAMBDA a : a.j \notin reach)
  IN V("not_normalised", \A k \in DOMAIN W : NormOk(store, W[k].j, W[k].w))
     \cup V("expected_counts", imp \/ \A k \in DOMAIN W : WeightOk(store, W[k].j, W[k].w, flows, "1e-6"))
     \cup V("leaf_fit", imp \/ \A k \in DOMAIN L : LeafOk(store, L[k].j, L[k], ev.rows, flows, ev.bias, "1e-6"))
     \cup V("outside_domain", \A k \in DOMAIN L : LeafDomOk(store, L[k].j, L[k]))
     \cup V("other_modules_changed", SelectSeq(ev.before, LAMBDA a : a.j \notin reach) = O)
     \cup V("history", IF imp THEN ev.hist = "-inf"
                        ELSE RClose(ev.hist, RDiv(RSum([b \in DOMAIN Ts |-> SumLn(Ts[b])]), RInt(Len(ev.rows))), "1e-7"))
     \cup (IF ~ev.mono \/ imp THEN {}
           ELSE V("likelihood_decreased", RFin(ev.next) /\ RLe(ev.hist, RAdd(ev.next, RMul("1e-6", RAdd(One, RAbs(ev.hist)))))))

(* the training loop's history against the same run stepped one step at a time *)
RunViol(ev) ==
  LET k == Len(ev.hist) IN
  V("too_many_steps", k <= ev.max)
  \cup V("history", k <= Len(ev.singles) /\ \A i \in 1..k : RClose(ev.hist[i], ev.singles[i], "1e-9"))
  \cup V("stopped_early", k = ev.max \/ ev.hist[k] = "-inf" \/ (k > 1 /\ RLe(ev.hist[k], ev.hist[k - 1])))
  \cup V("did_not_stop", \A i \in 2..(k - 1) : RLt(ev.hist[i - 1], ev.hist[i]))

(* writing parameters: mixture weights are accepted exactly when they have the right shape, are positive and sum *)
(* to one over the summed axes; log-weights are normalised; leaf parameters take the written value              *)
WDepth(op) == CASE op = "rmix" -> 3 [] op \in {"esum", "einsum"} -> 5 [] OTHER -> 4
Soft(q) == LET e == TLCEval([i \in DOMAIN q |-> RExp(q[i])]) s == RSum(e) IN TLCEval([i \in DOMAIN q |-> RDiv(e[i], s)])
Soft2(m) == LET e == TLCEval([i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> RExp(m[i][j])]])
                s == RSum([i \in DOMAIN e |-> RSum(e[i])]) IN
            TLCEval([i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> RDiv(e[i][j], s)]])
RECURSIVE SoftW(_, _, _)
SoftW(w, d, two) == CASE ~two /\ d = 1 -> Soft(w)
                      [] two /\ d = 2 -> Soft2(w)
                      [] OTHER -> TLCEval([i \in DOMAIN w |-> SoftW(w[i], d - 1, two)])
RECURSIVE WRows(_, _, _)
WRows(w, d, two) == CASE ~two /\ d = 1 -> {w}
                      [] two /\ d = 2 -> {FoldLeft(LAMBDA a, r : a \o r, <<>>, w)}
                      [] OTHER -> UNION {WRows(w[i], d - 1, two) : i \in DOMAIN w}
Simplex(w, op) == \A q \in WRows(w, WDepth(op), op = "einsum") : (\A i \in DOMAIN q : RLt("0", q[i])) /\ RClose(RSum(q), "1", "1e-6")
SetWOk(ev) == ev.shapeok /\ (ev.log \/ Simplex(ev.w, store[ev.j].op))
SetWViol(ev) == V("not_rejected", ev.raised \/ SetWOk(ev)) \cup V("valid_weights_rejected", ~ev.raised \/ ~SetWOk(ev))
AfterW(ev) == IF ~SetWOk(ev) THEN store
              ELSE [store EXCEPT ![ev.j].w = IF ev.log THEN SoftW(ev.w, WDepth(store[ev.j].op), store[ev.j].op = "einsum") ELSE ev.w]
Sigmoid(x) == RDiv("1", RAdd("1", RExp(RNeg(x))))
AfterP(ev) ==
  LET old == store[ev.j].par IN
  [store EXCEPT ![ev.j].par = TLCEval([r \in DOMAIN old |-> [f \in DOMAIN old[r] |-> [c \in DOMAIN old[r][f] |->
     LET v == ev.v[r][f][c] IN
     CASE ev.via = "plain" -> [old[r][f][c] EXCEPT ![ev.col] = v]
       [] ev.via = "logit" -> [old[r][f][c] EXCEPT ![ev.col] = Sigmoid(v)]
       [] ev.via = "probs" -> v
       [] OTHER -> Soft(v)]]])]
RECURSIVE NearDeep(_, _, _)
NearDeep(a, b, d) == IF d = 0 THEN RClose(a, b, "1e-9") ELSE Len(a) = Len(b) /\ \A i \in DOMAIN a : NearDeep(a[i], b[i], d - 1)
RECURSIVE ExpDeep(_, _)
ExpDeep(a, d) == IF d = 0 THEN RExp(a) ELSE TLCEval([i \in DOMAIN a |-> ExpDeep(a[i], d - 1)])
ReadViol(ev) ==
  LET n == store[ev.j] IN
  IF "w" \in DOMAIN n
  THEN V("reads_back", NearDeep(ev.node.w, n.w, WDepth(n.op)))
       \cup V("not_normalised", NearDeep(ev.node.w, n.w, WDepth(n.op)) => Simplex(ev.node.w, n.op))
       \cup (IF Has(ev, "lw") THEN V("log_reads_back", NearDeep(ExpDeep(ev.lw, WDepth(n.op)), n.w, WDepth(n.op))) ELSE {})
  ELSE IF "par" \in DOMAIN n THEN V("reads_back", NearDeep(ev.node.par, n.par, 4)) ELSE {}

(* a copy of the model made of nodes lo..hi: fresh nodes with the same content that refer to each other *)
Shift(n, lo, hi, d) == [n EXCEPT !.ins = [k \in DOMAIN @ |-> IF @[k] >= lo /\ @[k] <= hi THEN @[k] + d ELSE @[k]]]
CopyOf(ev) == store \o TLCEval([k \in 1..(ev.hi - ev.lo + 1) |-> Shift(store[ev.lo + k - 1], ev.lo, ev.hi, Len(store) + 1 - ev.lo)])
(* restoring a state dictionary: nodes lo..hi take the content of the nodes from src on *)
Assigned(ev) == TLCEval([k \in DOMAIN store |-> IF k < ev.lo \/ k > ev.hi THEN store[k] ELSE [store[ev.src + k - ev.lo] EXCEPT !.ins = store[k].ins]])

(* building the expression ev.ast[ev.i] (ok: it was accepted), then evaluating it *)
ExprViol(ev) ==
  LET d == Denote(store, ev.ast, ev.i) IN
  CASE d.ok = "no" -> V("ill_formed_accepted", ~ev.accepted)
    [] ~ev.accepted -> V("well_formed_rejected", d.ok \in {"may", "any"})
    [] d.ok = "any" -> {}
    [] OTHER -> V("value", \A k \in DOMAIN ev.rows : LogTableIs(ev.out[k], Eval(d.st, d.m, ev.rows[k]), Tol))
                \cup V("shape", ev.shape = ShapeOf(d.st, d.m))
                \cup V("scope", Rg(ev.scope) = ScopeOf(d.st, d.m))

(* two recorded observations that must be identical token by token *)
EqViol(ev) == V(ev.clause, ev.a = ev.b)
(* two recorded observations that must agree numerically: flat sequences *)
CloseViol(ev) ==
  V(ev.clause, Len(ev.a) = Len(ev.b) /\ \A i \in 1..Len(ev.a) : RClose(ev.a[i], ev.b[i], TolOf(ev)))

Judge(ev) ==
  CASE ev.e = "mk" -> MkViol(ev)
    [] ev.e = "splitfs" -> SplitFsViol(ev)
    [] ev.e = "ll" -> LlViol(ev)
    [] ev.e = "try" -> TryViol(ev)
    [] ev.e = "marg" -> MargViol(ev)
    [] ev.e = "imgll" -> ImgLlViol(ev)
    [] ev.e = "imgmarg" -> ImgMargViol(ev)
    [] ev.e = "cmbuilt" -> CmBuiltViol(ev)
    [] ev.e = "cmpick" -> CmPickViol(ev)
    [] ev.e = "cmpoints" -> CmPointsViol(ev)
    [] ev.e = "points" -> PointsViol(ev)
    [] ev.e = "iv" -> IvViol(ev)
    [] ev.e = "norm" -> NormViol(ev)
    [] ev.e = "smp" -> SmpViol(ev)
    [] ev.e = "mpe" -> MpeViol(ev)
    [] ev.e = "grad" -> GradViol(ev)
    [] ev.e = "mle" -> MleViol(ev)
    [] ev.e = "em" -> EmViol(ev)
    [] ev.e = "emrun" -> RunViol(ev)
    [] ev.e = "eq" -> EqViol(ev)
    [] ev.e = "close" -> CloseViol(ev)
    [] ev.e \in {"upd", "copy", "assign"} -> {}
    [] ev.e = "setw" -> SetWViol(ev)
    [] ev.e = "setp" -> V("value_rejected", ~ev.raised)
    [] ev.e = "expr" -> ExprViol(ev)
    [] ev.e = "built" -> BuiltViol(ev)
    [] ev.e = "read" -> ReadViol(ev)
    [] ev.e = "post" -> PostClauses(store, ev)
    [] ev.e = "score" -> ScoreClauses(store, ev)
    [] ev.e = "prior" -> PriorClauses(store, ev)
    [] ev.e = "info" -> InfoClauses(store, ev)
    [] ev.e = "condp" -> CondClauses(store, ev)
    [] ev.e = "woe" -> WoeClauses(store, ev)
    [] ev.e = "loo" -> LooClauses(store, ev)
    [] ev.e = "llabs" -> LlAbsViol(ev)
    [] ev.e = "signed" -> SignedClauses(store, ev)
    [] ev.e = "ip" -> IpClauses(store, ev)
    [] ev.e = "sos" -> SosClauses(store, ev)
    [] ev.e = "sosmass" -> SosMassClauses(store, ev)
    [] ev.e = "sossmp" -> SosSmpClauses(store, ev)
    [] ev.e = "bsoc" -> BsocClauses(store, ev)
    [] ev.e = "prop" -> PropClauses(store, ev)
    [] ev.e = "valid" -> ValidViol(ev)
    [] ev.e = "learned" -> LearnedClauses(store, ev)
    [] ev.e = "stats" -> StatsClauses(ev)
    [] ev.e = "show" -> ShowClauses(ev)
    [] ev.e = "draw" -> DrawClauses(ev)
    [] ev.e = "replaced" -> ReplaceClauses(ev)
    [] ev.e = "mi" -> MiClauses(ev)
    [] ev.e = "pair" -> PairClauses(ev)
    [] ev.e = "mst" -> MstClauses(ev)
    [] ev.e = "topk" -> TopkClauses(ev)
    [] ev.e = "chowliu" -> ChowLiuClauses(ev)
    [] ev.e = "fittree" -> FitTreeClauses(ev)
    [] ev.e = "hclt" -> HcltClauses(ev)
    [] ev.e = "raise" -> {"unexpected_exception"}
    [] ev.e = "reject" -> V("not_rejected", ev.raised)
    [] OTHER -> {"unknown_event"}

Effect(ev) ==
  CASE ev.e = "mk" -> store' = Append(store, ev.node)
    [] ev.e = "mle" -> store' = [store EXCEPT ![ev.j] = IF @.dist = "cltree" THEN [@ EXCEPT !.cpt = ev.cpt] ELSE [@ EXCEPT !.par = ev.par]]
    [] ev.e = "em" -> store' = WithAfter(store, ev.after)
    [] ev.e = "setw" -> store' = AfterW(ev)
    [] ev.e = "setp" -> store' = IF ev.raised THEN store ELSE AfterP(ev)
    [] ev.e = "upd" -> store' = [store EXCEPT ![ev.j] = ev.node]
    [] ev.e = "copy" -> store' = CopyOf(ev)
    [] ev.e = "assign" -> store' = Assigned(ev)
    [] OTHER -> UNCHANGED store

-----------------------------------------------------------------------------
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ store = <<>>
TraceNext ==
  /\ l <= Len(Traces[t])
  /\ LET ev == Traces[t][l] IN
     /\ \A c \in Judge(ev) : PrintT("FAIL|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o c)
     /\ Effect(ev)
  /\ (l = Len(Traces[t]) => PrintT("DONE|" \o ToString(t)))
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
