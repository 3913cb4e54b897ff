------------------------------- MODULE ChowLiu -------------------------------
(* Pairwise statistics of discrete data, spanning trees and their optimality. *)
EXTENDS Circuit, Mle

(* X: rows of values, ws: weights; one smoothing count pc1 per value and pc2 per pair of values *)
Freq1(X, ws, K, pc, i, x) ==
  RAdd(pc, RSum([b \in DOMAIN X |-> IF REq(X[b][i], RInt(x)) THEN ws[b] ELSE Z]))
Freq2(X, ws, pc, i, x, j, y) ==
  RAdd(pc, RSum([b \in DOMAIN X |-> IF REq(X[b][i], RInt(x)) /\ REq(X[b][j], RInt(y)) THEN ws[b] ELSE Z]))
NormSeq(s) == LET z == RSum(s) IN TLCEval([k \in DOMAIN s |-> RDiv(s[k], z)])
P1(X, ws, K, pc, i) == NormSeq(TLCEval([x \in 1..K |-> Freq1(X, ws, K, pc, i, x - 1)]))
P2(X, ws, K, pc, i, j) ==    \* flattened, value of i major
  NormSeq(TLCEval([q \in 1..(K * K) |-> Freq2(X, ws, pc, i, (q - 1) \div K, j, (q - 1) % K)]))
Mi(p2, p1, q1, K) ==
  RSum([q \in DOMAIN p2 |->
     IF REq(p2[q], Z) THEN Z
     ELSE RMul(p2[q], RLn(RDiv(p2[q], RMul(p1[((q - 1) \div K) + 1], q1[((q - 1) % K) + 1]))))])
(* symmetric matrix of mutual informations *)
MiMatrix(X, ws, K, pc1, pc2) ==
  LET D == Len(X[1])
      p == TLCEval([i \in 1..D |-> P1(X, ws, K, pc1, i)])
      up == TLCEval([i \in 1..D |-> [j \in 1..D |-> IF i < j THEN Mi(P2(X, ws, K, pc2, i, j), p[i], p[j], K) ELSE Z]])
  IN TLCEval([i \in 1..D |-> [j \in 1..D |-> IF i < j THEN up[i][j] ELSE up[j][i]]])

(* undirected graphs over 1..D: sets of pairs {i, j} *)
RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup UNION {e \in E : e \cap S # {}} IN IF T = S THEN S ELSE Grow(E, T)
Connected(E, D) == Grow(E, {1}) = 1..D
IsSpanning(E, D) == (\A e \in E : Cardinality(e) = 2 /\ e \subseteq 1..D) /\ Cardinality(E) = D - 1 /\ Connected(E, D)
PairsOf(D) == {e \in SUBSET (1..D) : Cardinality(e) = 2}
SpanningTrees(D) == {E \in kSubset(D - 1, PairsOf(D)) : Connected(E, D)}
WOf(W, e) == LET i == Min(e) j == Max(e) IN W[i][j]
(* a spanning tree is of maximal weight iff no edge outside is heavier than an edge of the cycle it closes *)
IsMaxSpanning(E, W, D, tol) ==
  /\ IsSpanning(E, D)
  /\ \A f \in PairsOf(D) \ E : \A e \in E :
       IsSpanning((E \ {e}) \cup {f}, D) => RLe(WOf(W, f), RAdd(WOf(W, e), tol))
TreeEdges(parent) == {{i, parent[i]} : i \in {k \in DOMAIN parent : parent[k] # 0}}
ChowLiuTree(parent, X, ws, K, alpha, tol) ==
  IsMaxSpanning(TreeEdges(parent), MiMatrix(X, Scaled(ws), K, alpha, alpha), Len(parent), tol)

(* the process of merging along the heaviest edges: the component structures before each merge, *)
(* i.e. the variables divided into D, D-1, ..., 2 groups                                          *)
SortedPairs(W, D) ==
  SortSeq(SetToSeq(PairsOf(D)), LAMBDA e, f : RLt(WOf(W, f), WOf(W, e)))
Linkage(W, D) ==
  LET step(s, e) ==
        LET A == CHOOSE c \in s.comps : Min(e) \in c
        IN IF Max(e) \in A THEN s
           ELSE LET B == CHOOSE c \in s.comps : Max(e) \in c
                IN [comps |-> (s.comps \ {A, B}) \cup {A \cup B}, past |-> Append(s.past, s.comps)]
  IN FoldLeft(step, [comps |-> {{i} : i \in 1..D}, past |-> <<>>], SortedPairs(W, D)).past

(* ------------------------------------------------------------------------- *)
(* trees of extremal total weight, under forced and forbidden edges *)
TreeWeight(W, E) == RSum(LET q == SetToSeq(E) IN [i \in DOMAIN q |-> WOf(W, q[i])])
Feasible(D, inc, exc) == {E \in SpanningTrees(D) : inc \subseteq E /\ E \cap exc = {}}
Before(a, b, max) == IF max THEN RLt(b, a) ELSE RLt(a, b)
SortedWeights(W, D, max) ==
  LET q == SetToSeq(SpanningTrees(D))
  IN SortSeq(TLCEval([i \in DOMAIN q |-> TreeWeight(W, q[i])]), LAMBDA a, b : Before(a, b, max))
EdgeSet(es) == {{e[1] + 1, e[2] + 1} : e \in Rg(es)}
MstClauses(ev) ==
  LET V0(n, ok) == IF ok THEN {} ELSE {n}
      D == Len(ev.W)
      ok == Feasible(D, EdgeSet(ev.inc), EdgeSet(ev.exc))
      E == EdgeSet(ev.out)
  IN IF ~ev.found THEN V0("feasible_tree_not_found", ok = {})
     ELSE IF E \notin ok THEN {"constraint_or_spanning"}
     ELSE V0("total", RClose(ev.total, TreeWeight(ev.W, E), "1e-9"))
          \cup V0("not_optimal", \A T \in ok : ~Before(RAdd(TreeWeight(ev.W, T), IF ev.max THEN RNeg("1e-9") ELSE "1e-9"), TreeWeight(ev.W, E), ev.max))
(* a list of the k best distinct trees, best first *)
BestTrees(W, D, k, max, out, tol) ==
  LET V0(n, ok) == IF ok THEN {} ELSE {n}
      all == SortedWeights(W, D, max)
      T == [i \in DOMAIN out |-> EdgeSet(out[i])]
  IN V0("spanning_trees", \A i \in DOMAIN T : Len(out[i]) = D - 1 /\ IsSpanning(T[i], D))
     \cup V0("distinct", Cardinality(Rg(T)) = Len(T))
     \cup V0("number", Len(out) = Min({k, Len(all)}))
     \cup V0("k_best_in_order", \A i \in DOMAIN T : i <= Len(all) => RLe(RAbs(RSub(TreeWeight(W, T[i]), all[i])), tol))
TopkClauses(ev) == BestTrees(ev.W, Len(ev.W), ev.k, ev.max, ev.out, "1e-9")
(* smoothing as the learners define it: total mass pc, scaled by the mean weight for categorical data *)
LearnedMi(ev) ==
  LET N == Len(ev.data)
      ws == IF "ws" \in DOMAIN ev THEN ev.ws ELSE [b \in 1..N |-> One]
      pc == IF ev.kind = "cat" THEN RMul(ev.pc, RDiv(RSum(ws), RInt(N))) ELSE ev.pc
  IN MiMatrix(ev.data, ws, ev.K, RDiv(pc, RInt(ev.K)), RDiv(pc, RInt(ev.K * ev.K)))
SelfMi(ev, i) ==
  LET N == Len(ev.data)
      ws == IF "ws" \in DOMAIN ev THEN ev.ws ELSE [b \in 1..N |-> One]
      pc == IF ev.kind = "cat" THEN RMul(ev.pc, RDiv(RSum(ws), RInt(N))) ELSE ev.pc
      p == P1(ev.data, ws, ev.K, RDiv(pc, RInt(ev.K)), i)
  IN RSum([x \in DOMAIN p |-> IF REq(p[x], Z) THEN Z ELSE RNeg(RMul(p[x], RLn(p[x])))])
MiClauses(ev) ==
  LET M == LearnedMi(ev) D == Len(M)
      V0(n, ok) == IF ok THEN {} ELSE {n}
      near(a, b) == a # "nan" /\ RLe(RAbs(RSub(a, b)), ev.tol)
  IN V0("mutual_information", Len(ev.out) = D /\ \A i, j \in 1..D : i # j => near(ev.out[i][j], M[i][j]))
     \cup V0("entropy", \A i \in 1..D : near(ev.out[i][i], SelfMi(ev, i)))
PairClauses(ev) ==
  LET V0(n, ok) == IF ok THEN {} ELSE {n}
      N == Len(ev.data) D == Len(ev.data[1])
      ws == IF "ws" \in DOMAIN ev THEN ev.ws ELSE [b \in 1..N |-> One]
      p1(i) == P1(ev.data, ws, 2, RDiv(ev.pc, RInt(2)), i)
      want(i, j) == IF i = j THEN <<p1(i)[1], Z, Z, p1(i)[2]>> ELSE P2(ev.data, ws, 2, RDiv(ev.pc, RInt(4)), i, j)
  IN V0("pairwise_marginal", \A i, j \in 1..D : LET w == TLCEval(want(i, j)) IN \A q \in 1..4 : RLe(RAbs(RSub(ev.out[i][j][q], w[q])), ev.tol))
ChowLiuClauses(ev) == BestTrees(LearnedMi(ev), Len(ev.data[1]), ev.k, TRUE, ev.out, ev.tol)
FitTreeClauses(ev) ==
  IF ChowLiuTree(ev.parent, ev.data, ev.ws, ev.K, ev.alpha, "1e-7") THEN {} ELSE {"maximum_spanning_tree"}
(* the transitions of a hidden tree model rooted at variable 0: one per edge, over the variables beyond it *)
Beyond(E, p, c) == Grow({e \in E : e # {p, c}}, {c})
ChildEnd(E, e) == CHOOSE c \in e : 1 \notin Beyond(E, (CHOOSE p \in e : p # c), c)
HiddenTree(E, scopes, D) ==
  {Rg(scopes[i]) : i \in DOMAIN scopes} =
    {1..D} \cup {LET c == ChildEnd(E, e) p == CHOOSE p \in e : p # c IN Beyond(E, p, c) : e \in E}
HcltClauses(ev) ==
  LET V0(n, ok) == IF ok THEN {} ELSE {n}
      D == Len(ev.data[1])
      M == LearnedMi(ev)
      fits(c) == {E \in SpanningTrees(D) : HiddenTree(E, ev.comps[c].scopes, D)}
      all == SortedWeights(M, D, TRUE)
  IN V0("number_of_trees", Len(ev.comps) = Min({ev.k, Len(all)}))
     \cup V0("hidden_states", \A c \in DOMAIN ev.comps : \A i \in DOMAIN ev.comps[c].states : ev.comps[c].states[i] = ev.H)
     \cup V0("tree_structured", \A c \in DOMAIN ev.comps : fits(c) # {})
     \cup V0("k_best_in_order", \A c \in DOMAIN ev.comps : c <= Len(all) =>
            \E E \in fits(c) : RLe(RAbs(RSub(TreeWeight(M, E), all[c])), ev.tol))
==============================================================================
