------------------------------- MODULE Circuit -------------------------------
(* The meaning of circuits.  A circuit store is a sequence of node records;   *)
(* node.ins are indices of earlier nodes.  The value of a node for one row of *)
(* evidence is a table T[r][f][c] of non-negative reals (linear domain).      *)
(* A row is a sequence of cells, column v at position v+1; a cell is a value  *)
(* token, "nan" (missing) or a pair <<lo, hi>> (interval evidence).           *)
EXTENDS Dists, SequencesExt, FiniteSets, FiniteSetsExt, Functions

Rg(s) == {s[i] : i \in DOMAIN s}
Iota(n) == [i \in 1..n |-> i]
RepsT(T) == Len(T)
FeatT(T) == Len(T[1])
ChanT(T) == Len(T[1][1])
Table(R, F, C, Op(_, _, _)) ==
  TLCEval([r \in 1..R |-> TLCEval([f \in 1..F |-> TLCEval([c \in 1..C |-> Op(r, f, c)])])])
(* broadcasting index: size-1 axes are shared *)
Bc(n, i) == IF n = 1 THEN 1 ELSE i
At(T, r, f, c) == T[Bc(Len(T), r)][f][Bc(Len(T[1][1]), c)]

-----------------------------------------------------------------------------
(* Leaves *)
IsPair(x) == x \notin STRING /\ Len(x) = 2
Cell(dist, p, aux, x) ==
  IF x = "nan" THEN One
  ELSE Density(dist, p, aux, x)

(* Chow-Liu tree leaf: par[i] is the parent position (0 = root), cpt[i][px+1][x+1] *)
RECURSIVE TreeUp(_, _, _, _)
TreeUp(parent, cpt, e, i) ==          \* message of node i to its parent, per parent state
  LET n == Len(parent)
      kids == {j \in 1..n : parent[j] = i}
      K == Len(cpt[i][1])
      ks == SetToSeq(kids)
      up == TLCEval([q \in 1..Len(ks) |-> TreeUp(parent, cpt, e, ks[q])])
      sub(x) == RProd([q \in 1..Len(ks) |-> up[q][x]])
      loc == TLCEval([x \in 1..K |-> IF e[i] = "nan" \/ REq(e[i], RInt(x - 1)) THEN sub(x) ELSE Z])
  IN TLCEval([px \in 1..Len(cpt[i]) |-> RDot(cpt[i][px], loc)])
TreeP(parent, cpt, e) ==
  LET root == CHOOSE i \in 1..Len(parent) : parent[i] = 0
  IN TreeUp(parent, cpt, e, root)[1]

LeafT(n, e) ==
  IF n.dist = "cltree"
  THEN Table(Len(n.cpt), Len(n.scope), Len(n.cpt[1]),   \* the joint sits in the first feature
             LAMBDA r, f, c : IF f > 1 THEN One ELSE TreeP(n.parent, n.cpt[r][c], [i \in 1..Len(n.scope) |-> e[n.scope[i] + 1]]))
  ELSE Table(Len(n.par), Len(n.par[1]), Len(n.par[1][1]),
             LAMBDA r, f, c : Cell(n.dist, n.par[r][f][c], n.aux, e[n.scope[f] + 1]))
LeafI(n, lo, hi) ==
  Table(Len(n.par), Len(n.par[1]), Len(n.par[1][1]),
        LAMBDA r, f, c : IntervalP(n.dist, n.par[r][f][c], n.aux, lo[n.scope[f] + 1], hi[n.scope[f] + 1]))

-----------------------------------------------------------------------------
(* Structural operators *)
CatF(ts) ==   \* concatenate along features
  LET R == Max({Len(ts[i]) : i \in DOMAIN ts})
  IN TLCEval([r \in 1..R |-> FoldLeft(LAMBDA a, t : a \o t[Bc(Len(t), r)], <<>>, ts)])
CatC(ts) ==   \* concatenate along channels
  LET R == Max({Len(ts[i]) : i \in DOMAIN ts})
  IN TLCEval([r \in 1..R |-> TLCEval([f \in 1..Len(ts[1][1]) |->
       FoldLeft(LAMBDA a, t : a \o t[Bc(Len(t), r)][f], <<>>, ts)])])

(* which input features make up part k of a split over F features *)
SplitPart(sp, F, k) ==
  CASE sp.kind = "cons" -> [i \in 1..(F \div sp.k) |-> (k - 1) * (F \div sp.k) + i]
    [] sp.kind = "int"  -> [i \in 1..(F \div sp.k) |-> (i - 1) * sp.k + k]
    [] sp.kind = "idx"  -> [i \in 1..Len(sp.idx[k]) |-> sp.idx[k][i] + 1]
SelF(T, fs) == TLCEval([r \in 1..Len(T) |-> [i \in 1..Len(fs) |-> T[r][fs[i]]]])
Parts(n, cv) ==
  IF n.split.kind = "none" THEN cv
  ELSE TLCEval([k \in 1..n.split.k |-> SelF(cv[1], SplitPart(n.split, FeatT(cv[1]), k))])

(* row-major channel tuples of the parts: digit k of combination c *)
RECURSIVE ProdLen(_)
ProdLen(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdLen(Tail(s))
Digit(cs, c, k) == (((c - 1) \div ProdLen(SubSeq(cs, k + 1, Len(cs)))) % cs[k]) + 1

MaxOf(q) == Max(Rg(q))
MaxC(ts) == Max({ChanT(ts[i]) : i \in DOMAIN ts})
MaxR(ts) == Max({Len(ts[i]) : i \in DOMAIN ts})

(* value table of an inner node from its children's tables *)
Inner(n, cv) ==
  CASE n.op = "cat1" -> CatF(cv)
    [] n.op = "cat2" -> CatC(cv)
    [] n.op = "sum" ->
         LET T == CatC(cv) IN
         Table(Max({Len(n.w), Len(T)}), FeatT(T), Len(n.w[1][1]),
               LAMBDA r, f, o : RDot(n.w[Bc(Len(n.w), r)][f][o], T[Bc(Len(T), r)][f]))
    [] n.op = "esum" ->     \* w[r][f][ci][co][i]
         LET Co == Len(n.w[1][1][1]) IN
         Table(Len(n.w), FeatT(cv[1]), MaxC(cv) * Co,
               LAMBDA r, f, c : LET ci == ((c - 1) \div Co) + 1  co == ((c - 1) % Co) + 1 IN
                 RDot(n.w[r][f][ci][co], [i \in 1..Len(cv) |-> At(cv[i], r, f, ci)]))
    [] n.op = "rmix" ->     \* w[f][c][r]
         Table(1, FeatT(cv[1]), ChanT(cv[1]),
               LAMBDA r, f, c : RDot(n.w[f][c], [q \in 1..Len(cv[1]) |-> cv[1][q][f][c]]))
    [] n.op = "prod" ->
         LET T == CatF(cv) IN
         Table(Len(T), 1, ChanT(T), LAMBDA r, f, c : RProd([g \in 1..FeatT(T) |-> T[r][g][c]]))
    [] n.op = "eprod" ->
         LET P == Parts(n, cv) IN
         Table(MaxR(P), FeatT(P[1]), MaxC(P), LAMBDA r, f, c : RProd([k \in 1..Len(P) |-> At(P[k], r, f, c)]))
    [] n.op = "oprod" ->
         LET P == Parts(n, cv)
             cs == [k \in 1..Len(P) |-> ChanT(P[k])] IN
         Table(MaxR(P), FeatT(P[1]), ProdLen(cs),
               LAMBDA r, f, c : RProd([k \in 1..Len(P) |-> P[k][Bc(Len(P[k]), r)][f][Digit(cs, c, k)]]))
    [] n.op = "einsum" ->   \* w[r][f][o][i][j]
         LET P == Parts(n, cv) IN
         Table(Len(n.w), FeatT(P[1]), Len(n.w[1][1]),
               LAMBDA r, f, o : RSum([i \in 1..Len(n.w[r][f][o]) |->
                  RMul(At(P[1], r, f, i), RDot(n.w[r][f][o][i], P[2][Bc(Len(P[2]), r)][f]))]))
    [] n.op = "linsum" ->   \* w[r][f][o][c]
         LET P == Parts(n, cv) IN
         Table(Len(n.w), FeatT(P[1]), Len(n.w[1][1]),
               LAMBDA r, f, o : RDot(n.w[r][f][o],
                  [c \in 1..Len(n.w[r][f][o]) |-> RMul(At(P[1], r, f, c), At(P[2], r, f, c))]))
    [] n.op = "fact" ->     \* groups[r][g] = sequence of input features
         LET T == CatF(cv) IN
         Table(Len(n.groups), Len(n.groups[1]), ChanT(T),
               LAMBDA r, g, c : RProd([q \in 1..Len(n.groups[r][g]) |-> T[Bc(Len(T), r)][n.groups[r][g][q]][c]]))
    [] n.op = "pconv" ->    \* groups[g] = input features multiplied into output g (shared by repetitions)
         Table(Len(cv[1]), Len(n.groups), ChanT(cv[1]),
               LAMBDA r, g, c : RProd([q \in 1..Len(n.groups[g]) |-> cv[1][r][n.groups[g][q]][c]]))
    [] n.op = "sconv" ->    \* w[r][k][o][i], kpos[f] = kernel position used at feature f
         Table(Len(n.w), FeatT(cv[1]), Len(n.w[1][1]),
               LAMBDA r, f, o : RDot(n.w[r][n.kpos[f]][o], cv[1][Bc(Len(cv[1]), r)][f]))
    [] n.op = "id" -> cv[1]

(* indices of the nodes a node depends on, itself included *)
Reach(store, m) ==
  LET step(S, i) == IF i \in S THEN S \cup Rg(store[i].ins) ELSE S
  IN FoldLeft(step, {m}, [k \in 1..m |-> m + 1 - k])

EvalAll(store, m, LeafVal(_)) ==
  LET need == Reach(store, m)
  IN FoldLeft(LAMBDA acc, i : Append(acc,
        IF i \notin need THEN <<>>
        ELSE IF store[i].op = "leaf" THEN LeafVal(store[i])
        ELSE Inner(store[i], [k \in DOMAIN store[i].ins |-> acc[store[i].ins[k]]])), <<>>, Iota(m))
Eval(store, m, e) == EvalAll(store, m, LAMBDA n : LeafT(n, e))[m]
EvalIv(store, m, lo, hi) == EvalAll(store, m, LAMBDA n : LeafI(n, lo, hi))[m]

-----------------------------------------------------------------------------
(* Scopes: table S[r][f] of variable sets, and well-formedness of each node   *)
ScopeTab(R, F, Op(_, _)) == TLCEval([r \in 1..R |-> TLCEval([f \in 1..F |-> Op(r, f)])])
SCatF(ss) == LET R == Max({Len(ss[i]) : i \in DOMAIN ss})
             IN TLCEval([r \in 1..R |-> FoldLeft(LAMBDA a, t : a \o t[Bc(Len(t), r)], <<>>, ss)])
SParts(n, cs) == IF n.split.kind = "none" THEN cs
                 ELSE [k \in 1..n.split.k |-> SelF(cs[1], SplitPart(n.split, Len(cs[1][1]), k))]
UnionOf(q) == UNION Rg(q)
(* node value shapes are derived together with the scopes: <<scope table, channels>> *)
SInner(n, cs) ==
  CASE n.op = "cat1" -> SCatF(cs)
    [] n.op \in {"cat2", "id"} -> cs[1]
    [] n.op = "sum" -> ScopeTab(Max({Len(n.w), Len(cs[1])}), Len(cs[1][1]), LAMBDA r, f : cs[1][Bc(Len(cs[1]), r)][f])
    [] n.op \in {"esum", "sconv"} -> ScopeTab(Len(n.w), Len(cs[1][1]), LAMBDA r, f : cs[1][Bc(Len(cs[1]), r)][f])
    [] n.op = "rmix" -> <<cs[1][1]>>
    [] n.op = "prod" -> LET S == SCatF(cs) IN ScopeTab(Len(S), 1, LAMBDA r, f : UnionOf(S[r]))
    [] n.op \in {"eprod", "oprod", "einsum", "linsum"} ->
         LET P == SParts(n, cs)
             R == Max({Len(P[k]) : k \in DOMAIN P}) IN
         ScopeTab(R, Len(P[1][1]), LAMBDA r, f : UNION {P[k][Bc(Len(P[k]), r)][f] : k \in DOMAIN P})
    [] n.op = "fact" -> LET S == SCatF(cs) IN
         ScopeTab(Len(n.groups), Len(n.groups[1]),
                  LAMBDA r, g : UNION {S[Bc(Len(S), r)][n.groups[r][g][q]] : q \in DOMAIN n.groups[r][g]})
    [] n.op = "pconv" ->
         ScopeTab(Len(cs[1]), Len(n.groups), LAMBDA r, g : UNION {cs[1][r][n.groups[g][q]] : q \in DOMAIN n.groups[g]})
LeafScope(n) ==
  IF n.dist = "cltree" THEN [r \in 1..Len(n.cpt) |-> [f \in 1..Len(n.scope) |-> {n.scope[f]}]]
  ELSE [r \in 1..Len(n.par) |-> [f \in 1..Len(n.scope) |-> {n.scope[f]}]]
ScopeAll(store, m) ==
  LET need == Reach(store, m)
  IN FoldLeft(LAMBDA acc, i : Append(acc,
        IF i \notin need THEN <<>>
        ELSE IF store[i].op = "leaf" THEN LeafScope(store[i])
        ELSE SInner(store[i], [k \in DOMAIN store[i].ins |-> acc[store[i].ins[k]]])), <<>>, Iota(m))
FScope(store, m) == ScopeAll(store, m)[m]
ScopeOf(store, m) == UNION {UnionOf(FScope(store, m)[r]) : r \in DOMAIN FScope(store, m)}

LeafShape(n) == IF n.dist = "cltree" THEN <<Len(n.scope), Len(n.cpt[1]), Len(n.cpt)>>
                ELSE <<Len(n.par[1]), Len(n.par[1][1]), Len(n.par)>>
(* shape (features, channels, repetitions) of node m *)
SumQ(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
IShape(n, sh) ==
  LET Fs == [i \in DOMAIN sh |-> sh[i][1]]
      Cs == [i \in DOMAIN sh |-> sh[i][2]]
      Rm == Max({sh[i][3] : i \in DOMAIN sh})
      Cm == Max(Rg(Cs))
      F1 == IF n.split.kind = "none" THEN Fs[1] ELSE IF n.split.kind = "idx" THEN Len(n.split.idx[1]) ELSE Fs[1] \div n.split.k
  IN CASE n.op = "cat1" -> <<SumQ(Fs), Cs[1], Rm>>
       [] n.op = "cat2" -> <<Fs[1], SumQ(Cs), Rm>>
       [] n.op = "id" -> sh[1]
       [] n.op = "sum" -> <<Fs[1], Len(n.w[1][1]), Max({Rm, Len(n.w)})>>
       [] n.op = "esum" -> <<Fs[1], Cm * Len(n.w[1][1][1]), Len(n.w)>>
       [] n.op = "rmix" -> <<Fs[1], Cs[1], 1>>
       [] n.op = "prod" -> <<1, Cs[1], Rm>>
       [] n.op = "eprod" -> <<F1, Cm, Rm>>
       [] n.op = "oprod" -> <<F1, IF n.split.kind = "none" THEN ProdLen(Cs) ELSE ProdLen([k \in 1..n.split.k |-> Cs[1]]), Rm>>
       [] n.op \in {"einsum", "linsum"} -> <<F1, Len(n.w[1][1]), Len(n.w)>>
       [] n.op = "fact" -> <<Len(n.groups[1]), Cs[1], Len(n.groups)>>
       [] n.op = "pconv" -> <<Len(n.groups), Cs[1], Rm>>
       [] n.op = "sconv" -> <<Fs[1], Len(n.w[1][1]), Len(n.w)>>
ShapeAll(store, m) ==
  LET need == Reach(store, m)
  IN FoldLeft(LAMBDA acc, i : Append(acc,
        IF i \notin need THEN <<0, 0, 0>>
        ELSE IF store[i].op = "leaf" THEN LeafShape(store[i])
        ELSE IShape(store[i], [k \in DOMAIN store[i].ins |-> acc[store[i].ins[k]]])), <<>>, Iota(m))
ShapeOf(store, m) == ShapeAll(store, m)[m]
=============================================================================
