----------------------------- MODULE CircuitGen -----------------------------
(* Generates circuit construction programs: every behaviour is a history of   *)
(* constructor calls the library must accept, ending in one module store.     *)
(* Parameter positions hold the placeholder "?"; the replay driver fills them *)
(* with numbers, calls the real constructors and records the events that      *)
(* LibTrace.tla then validates.  Run with  tlc -simulate num=N.               *)
EXTENDS Circuit, Json, Randomization

CONSTANTS NVars,      \* variables 0..NVars-1
          MaxNodes,   \* program length
          GC, GF, GR,  \* channels, features, repetitions of generated leaves/sums
          Dists_, Ops, Splits,
          MaxReps      \* TRUE: all leaves have GR repetitions

VARIABLES store, shapes, scopes,
          vt          \* the type (leaf family) of every variable
vars == <<store, shapes, scopes, vt>>

Q == "?"
Arr1(a) == [i \in 1..a |-> Q]
Arr2(a, b) == [i \in 1..a |-> Arr1(b)]
Arr3(a, b, c) == [i \in 1..a |-> Arr2(b, c)]
Arr4(a, b, c, d) == [i \in 1..a |-> Arr3(b, c, d)]
Arr5(a, b, c, d, e) == [i \in 1..a |-> Arr4(b, c, d, e)]
NoSplit == [kind |-> "none", k |-> 1, idx |-> <<>>]
One1(S) == RandomElement(S)

N == Len(store)
Fn(i) == shapes[i][1]
Cn(i) == shapes[i][2]
Rn(i) == shapes[i][3]
(* A repetition-mixing layer still reports its input's repetition count (known
   finding C11), so nothing is stacked on top of one here. *)
Us(i) == store[i].op # "rmix"
SameScopes(i, j) == scopes[i] = scopes[j] /\ Us(i) /\ Us(j)
                    /\ \A r \in DOMAIN scopes[i] : \A f \in DOMAIN scopes[i][r] : \A v \in scopes[i][r][f] : v < 20000
AllS(i) == UNION {UnionOf(scopes[i][r]) : r \in DOMAIN scopes[i]}
Disj(i, j) == AllS(i) \cap AllS(j) = {} /\ Us(i) /\ Us(j)

(* Modules whose reported per-feature scopes are a known finding (C11): only
   their own descendants are combined with them under sums. *)
Tainted(n, sh) ==
  \/ n.op \in {"einsum", "linsum"} /\ n.split.kind \in {"cons", "idx"} /\ sh[1][1] > 2
  \/ n.op = "oprod" /\ n.split.kind = "none" /\ sh[1][1] > 1
Add(n) ==
  LET ss == [k \in DOMAIN n.ins |-> scopes[n.ins[k]]]
      sh == [k \in DOMAIN n.ins |-> shapes[n.ins[k]]]
  IN /\ store' = Append(store, n)
     /\ shapes' = Append(shapes, IF n.op = "leaf" THEN LeafShape(n) ELSE IShape(n, sh))
     /\ scopes' = Append(scopes,
          IF n.op = "leaf"
          THEN IF n.dist = "cltree"
               THEN [r \in 1..Len(n.cpt) |-> [f \in 1..Len(n.scope) |-> {n.scope[f], 10000 + N}]]
               ELSE LeafScope(n)
          ELSE IF n.op = "fact"
          THEN LET S == SInner(n, ss) IN
               [r \in 1..Len(S) |-> [g \in 1..Len(S[r]) |-> S[r][g] \cup {1000 + 100 * N + 10 * r + g}]]
          ELSE IF Tainted(n, sh)
          THEN LET S == SInner(n, ss) IN [r \in 1..Len(S) |-> [f \in 1..Len(S[r]) |-> S[r][f] \cup {20000 + N}]]
          ELSE SInner(n, ss))
     /\ UNCHANGED vt

(* A hidden grouping (chosen by the constructor, not by us) and the joint value
   of a tree leaf live in scopes tagged with a token >= 1000, so that they are
   never mixed with a module that merely has the same variables. *)
Strip(S) == {v \in S : v < 1000}
ParLen(d) == IF d \in {"normal", "gamma", "laplace", "log_normal", "uniform", "binomial", "negative_binomial"} THEN 2
             ELSE IF d \in {"categorical", "hypergeometric", "histogram"} THEN 3 ELSE 1
Leaf(d, vs, C, R) ==
  [op |-> "leaf", ins |-> <<>>, dist |-> d, scope |-> vs, aux |-> <<>>,
   par |-> [r \in 1..R |-> [f \in 1..Len(vs) |-> [c \in 1..C |-> Arr1(ParLen(d))]]], split |-> NoSplit]

(* Random choices are bound with \E x \in {choice} so that TLC evaluates them once. *)
(* biased to circuits in which many binary operators are applicable *)
Like(j, x, p) == IF N > 0 /\ One1(1..p) # 1 THEN shapes[1][j] ELSE x
Unused == {v \in 0..(NVars - 1) : \A i \in 1..N : v \notin AllS(i)}
MkLeaf ==
  \E U \in {IF Unused # {} /\ One1(1..4) # 1 THEN Unused ELSE 0..(NVars - 1)} :
  \E d \in {One1({vt[v] : v \in U})} :
  \E V \in {{v \in U : vt[v] = d}} :
  \E k0 \in {Like(1, One1(1..GF), 2)} :
  \E k \in {IF d = "histogram" THEN 1 ELSE Min({k0, GF, Cardinality(V)})} :
  \E S \in {RandomSubset(k, V)} :
  \E rev \in {One1({1, 2, 3}) = 1} : \E c \in {Like(2, One1(1..GC), 3)} :
  \E r \in {IF MaxReps THEN GR ELSE Like(3, One1(1..GR), 6)} :
     Add(Leaf(d, IF rev THEN Reverse(SetToSeq(S)) ELSE SetToSeq(S), c, r))

(* Chow-Liu tree leaf over two or more variables of one discrete family *)
MkTree ==
  \E d \in {One1({vt[v] : v \in 0..(NVars - 1)} \cap {"bernoulli", "categorical"})} :
  \E V \in {{v \in 0..(NVars - 1) : vt[v] = d}} :
  /\ Cardinality(V) >= 2
  /\ \E k \in {One1(2..Min({4, Cardinality(V)}))} :
     \E sc \in {RandomElement(SetToSeqs(RandomSubset(k, V)))} :
     \E pr \in {TLCEval([i \in 1..k |-> One1(1..Max({1, i - 1}))])} :
     \E ord \in {RandomElement(SetToSeqs(1..k))} :      \* position of the i-th node of the tree
     \E c \in {One1(1..GC)} : \E r \in {IF MaxReps THEN GR ELSE One1(1..GR)} :
       LET K == IF d = "bernoulli" THEN 2 ELSE 3
           rank == [p \in 1..k |-> CHOOSE i \in 1..k : ord[i] = p]
           par == [p \in 1..k |-> IF rank[p] = 1 THEN 0 ELSE ord[pr[rank[p]]]]
       IN Add([op |-> "leaf", ins |-> <<>>, dist |-> "cltree", scope |-> sc, aux |-> <<>>, parent |-> par,
               cpt |-> [rr \in 1..r |-> [cc \in 1..c |-> [p \in 1..k |-> IF par[p] = 0 THEN Arr2(1, K) ELSE Arr2(K, K)]]],
               split |-> NoSplit])

RECURSIVE GreedyDisj(_, _)
GreedyDisj(chosen, cands) ==
  IF cands = <<>> THEN chosen
  ELSE LET h == Head(cands) IN
       IF \A i \in Rg(chosen) : Disj(i, h) THEN GreedyDisj(Append(chosen, h), Tail(cands))
       ELSE GreedyDisj(chosen, Tail(cands))

Some == N > 0
FreshOf(a, b) == IF a > b THEN a ELSE b            \* biased to recent nodes
Usable == {i \in 1..N : Us(i)}
Fresh == {FreshOf(One1(Usable), One1(Usable))}
Shuf(S) == RandomElement(SetToSeqs(S))
(* up to k random members of cand, as a sequence *)
Up(cand, k) == Shuf(RandomSubset(Min({Cardinality(cand), One1(0..k)}), cand))
Up1(cand, k) == Shuf(RandomSubset(Min({Cardinality(cand), k}), cand))

MkSum ==
  /\ Some
  /\ \E i \in Fresh : \E rest \in {Up({j \in 1..N : j # i /\ SameScopes(i, j) /\ Rn(i) = Rn(j)}, 2)} :
     \E R \in {IF Rn(i) = 1 THEN One1(1..GR) ELSE Rn(i)} : \E Co \in {One1(1..GC)} :
       LET ins == <<i>> \o rest
           Ci == SumQ([k \in DOMAIN ins |-> Cn(ins[k])])
       IN Add([op |-> "sum", ins |-> ins, w |-> Arr4(R, Fn(i), Co, Ci), split |-> NoSplit])
MkESum ==
  /\ Some
  /\ \E i \in Fresh :
     \E rest \in {Up({j \in 1..N : j # i /\ SameScopes(i, j) /\ Rn(i) = Rn(j) /\ (Cn(j) = Cn(i) \/ Cn(j) = 1)}, 2)} :
     \E Co \in {One1(1..2)} :
       LET ins == <<i>> \o rest
       IN Add([op |-> "esum", ins |-> ins,
               w |-> Arr5(Rn(i), Fn(i), Max({Cn(ins[k]) : k \in DOMAIN ins}), Co, Len(ins)), split |-> NoSplit])
MkRMix ==
  /\ Some
  /\ \E i \in Fresh :
     /\ Rn(i) > 1 /\ One1(1..4) = 1
     /\ \/ \A r \in DOMAIN scopes[i] : scopes[i][r] = scopes[i][1]
        \/ Fn(i) = 1 /\ \A r \in DOMAIN scopes[i] : Strip(scopes[i][r][1]) = Strip(scopes[i][1][1])
     /\ Add([op |-> "rmix", ins |-> <<i>>, w |-> Arr3(Fn(i), Cn(i), Rn(i)), split |-> NoSplit])
MkProd ==
  /\ Some
  /\ \E i \in Fresh :
     \E q \in {Up1({j \in 1..N : j # i /\ Disj(i, j) /\ Rn(i) = Rn(j) /\ Cn(i) = Cn(j)}, 2)} :
       Add([op |-> "prod", ins |-> GreedyDisj(<<i>>, q), split |-> NoSplit])
(* elementwise / outer products: several aligned inputs or one split input *)
Mults(i) == {k \in 2..4 : Fn(i) % k = 0}
SplitOf(kind, k, F) ==
  IF kind # "idx" THEN [kind |-> kind, k |-> k, idx |-> <<>>]
  ELSE LET p == RandomElement(SetToSeqs(0..(F - 1)))
           m == F \div k
       IN [kind |-> "idx", k |-> k, idx |-> [j \in 1..k |-> SubSeq(p, (j - 1) * m + 1, j * m)]]
MkPw(op) ==
  /\ Some
  /\ \E i \in Fresh :
     \E q \in {Up1({j \in 1..N : j # i /\ Disj(i, j) /\ Rn(i) = Rn(j) /\ Fn(i) = Fn(j)
                               /\ (op = "oprod" \/ Cn(j) = Cn(i) \/ Cn(j) = 1)}, 2)} :
     \E one \in {One1({TRUE, FALSE})} : \E k \in {One1(IF Mults(i) = {} THEN {2} ELSE Mults(i))} : \E kind \in {One1(Splits)} :
       LET two == GreedyDisj(<<i>>, q) IN
       IF Mults(i) # {} /\ (Len(two) < 2 \/ one)
       THEN /\ k \in Mults(i)
            /\ op = "oprod" => (Cn(i) <= 2 \/ k = 2)
            /\ \E sp \in {SplitOf(kind, k, Fn(i))} : Add([op |-> op, ins |-> <<i>>, split |-> sp])
       ELSE /\ Len(two) >= 2
            /\ op = "oprod" => ProdLen([z \in DOMAIN two |-> Cn(two[z])]) <= 8
            /\ Add([op |-> op, ins |-> two, split |-> NoSplit])
MkBin(op) ==
  /\ Some
  /\ \E i \in Fresh :
     \E q \in {Up1({j \in 1..N : j # i /\ Disj(i, j) /\ Rn(i) = Rn(j) /\ Fn(i) = Fn(j)
                               /\ (op = "einsum" \/ Cn(j) = Cn(i))}, 1)} :
     \E one \in {One1({TRUE, FALSE})} : \E Co \in {One1(1..GC)} : \E kind \in {One1(Splits)} :
       LET mk(ins, sp, F, Cl, Cr) ==
             [op |-> op, ins |-> ins, split |-> sp,
              w |-> IF op = "einsum" THEN Arr5(Rn(i), F, Co, Cl, Cr) ELSE Arr4(Rn(i), F, Co, Cl)]
       IN IF Fn(i) % 2 = 0 /\ (q = <<>> \/ one)
          THEN \E sp \in {SplitOf(kind, 2, Fn(i))} : Add(mk(<<i>>, sp, Fn(i) \div 2, Cn(i), Cn(i)))
          ELSE q # <<>> /\ Add(mk(<<i, q[1]>>, NoSplit, Fn(i), Cn(i), Cn(q[1])))
MkCat1 ==
  /\ Some
  /\ \E i \in Fresh :
     \E q \in {Up1({j \in 1..N : j # i /\ Disj(i, j) /\ Rn(i) = Rn(j) /\ Cn(i) = Cn(j)}, 2)} :
       q # <<>> /\ Add([op |-> "cat1", ins |-> GreedyDisj(<<i>>, q), split |-> NoSplit])
(* factorization: every input feature is a single variable; groups shown here are
   a stand-in, the replay reads the partition the constructor drew *)
MkFact ==
  /\ Some
  /\ \E i \in Fresh : \E dep \in {One1({1, 2})} :
     LET F == Fn(i)  G == 2 ^ dep  q == F \div G IN
     /\ F >= G
     /\ \A r \in 1..Rn(i) : scopes[i][r] = scopes[i][1] /\ \A f \in 1..F : Cardinality(scopes[i][r][f]) = 1
     /\ Add([op |-> "fact", ins |-> <<i>>, depth |-> dep, split |-> NoSplit,
              groups |-> [r \in 1..Rn(i) |-> [g \in 1..G |->
                 [z \in 1..(IF g < G THEN q ELSE F - q * (G - 1)) |-> (g - 1) * q + z]]]])
(* convolutions read the features as a square grid *)
Side(F) == IF F = 1 THEN 1 ELSE IF F = 4 THEN 2 ELSE IF F = 9 THEN 3 ELSE IF F = 16 THEN 4 ELSE 0
MkPConv ==
  /\ Some
  /\ \E i \in Fresh : \E kh, kw \in {One1(1..2)} : \E ph, pw \in {One1(0..1)} :
     LET H == Side(Fn(i))
         oh == (H + 2 * ph) \div kh
         ow == (H + 2 * pw) \div kw
         Rng(o, k, p) == {z \in 1..H : z - 1 >= (o - 1) * k - p /\ z - 1 < (o - 1) * k - p + k}
         grp(g) == LET o == ((g - 1) \div ow) + 1  w == ((g - 1) % ow) + 1
                   IN SetToSortSeq({(a - 1) * H + b : a \in Rng(o, kh, ph), b \in Rng(w, kw, pw)}, <)
     IN /\ H > 1 /\ oh > 0 /\ ow > 0
        /\ (H + 2 * ph) % kh = 0 /\ (H + 2 * pw) % kw = 0
        /\ \A g \in 1..(oh * ow) : grp(g) # <<>>
        /\ Add([op |-> "pconv", ins |-> <<i>>, split |-> NoSplit, kern |-> <<kh, kw, ph, pw>>,
                 groups |-> [g \in 1..(oh * ow) |-> grp(g)]])
MkSConv ==
  /\ Some
  /\ \E i \in Fresh : \E K \in {One1(1..2)} : \E Co \in {One1(1..GC)} :
     LET H == Side(Fn(i)) IN
     /\ H > 0 /\ (H < K \/ H % K = 0) /\ (H > 1 \/ One1(1..4) = 1)
     /\ Add([op |-> "sconv", ins |-> <<i>>, split |-> NoSplit, ksize |-> K,
              w |-> Arr4(Rn(i), K * K, Co, Cn(i)),
              kpos |-> [f \in 1..Fn(i) |-> IF H < K THEN 1
                        ELSE ((((f - 1) \div H) % K) * K) + (((f - 1) % H) % K) + 1]])
MkCat2 ==
  /\ Some
  /\ \E i \in Fresh :
     \E q \in {Up({j \in 1..N : j # i /\ SameScopes(i, j) /\ Rn(i) = Rn(j)}, 2)} :
       q # <<>> /\ Add([op |-> "cat2", ins |-> <<i>> \o q, split |-> NoSplit])

Init == /\ store = <<>> /\ shapes = <<>> /\ scopes = <<>>
        /\ \E a, b \in Dists_ : \E h \in 1..NVars : vt = [v \in 0..(NVars - 1) |-> IF v < h THEN a ELSE b]
Next ==
  /\ N < MaxNodes
  /\ \/ (N < 3 \/ One1(1..4) = 1) /\ MkLeaf
     \/ "cltree" \in Ops /\ One1(1..3) = 1 /\ MkTree
     \* repeated disjuncts weight TLC's random choice of the next action
     \/ N > 1 /\ "sum" \in Ops /\ MkSum
     \/ N > 1 /\ "sum" \in Ops /\ MkSum
     \/ N > 1 /\ "esum" \in Ops /\ MkESum
     \/ N > 1 /\ "rmix" \in Ops /\ MkRMix
     \/ N > 1 /\ "rmix" \in Ops /\ MkRMix
     \/ N > 1 /\ "prod" \in Ops /\ MkProd
     \/ N > 1 /\ "prod" \in Ops /\ MkProd
     \/ N > 1 /\ "eprod" \in Ops /\ MkPw("eprod")
     \/ N > 1 /\ "eprod" \in Ops /\ MkPw("eprod")
     \/ N > 1 /\ "eprod" \in Ops /\ MkPw("eprod")
     \/ N > 1 /\ "oprod" \in Ops /\ MkPw("oprod")
     \/ N > 1 /\ "oprod" \in Ops /\ MkPw("oprod")
     \/ N > 1 /\ "oprod" \in Ops /\ MkPw("oprod")
     \/ N > 1 /\ "einsum" \in Ops /\ MkBin("einsum")
     \/ N > 1 /\ "einsum" \in Ops /\ MkBin("einsum")
     \/ N > 1 /\ "einsum" \in Ops /\ MkBin("einsum")
     \/ N > 1 /\ "linsum" \in Ops /\ MkBin("linsum")
     \/ N > 1 /\ "linsum" \in Ops /\ MkBin("linsum")
     \/ N > 1 /\ "linsum" \in Ops /\ MkBin("linsum")
     \/ N > 1 /\ "fact" \in Ops /\ MkFact
     \/ N > 1 /\ "fact" \in Ops /\ MkFact
     \/ N > 1 /\ "fact" \in Ops /\ MkFact
     \/ N > 1 /\ "pconv" \in Ops /\ MkPConv
     \/ N > 1 /\ "sconv" \in Ops /\ MkSConv
     \/ N > 1 /\ "cat1" \in Ops /\ MkCat1
     \/ N > 1 /\ "cat1" \in Ops /\ MkCat1
     \/ N > 1 /\ "cat1" \in Ops /\ MkCat1
     \/ N > 1 /\ "cat2" \in Ops /\ MkCat2
Spec == Init /\ [][Next]_vars

Small == \A i \in DOMAIN shapes' : shapes'[i][2] <= 8
(* every generated node is smooth and decomposable in the sense of Circuit.tla *)
WellFormed == \A i \in DOMAIN scopes : Len(scopes[i]) = shapes[i][3] /\ Len(scopes[i][1]) = shapes[i][1]
Emit == N = MaxNodes => PrintT("PROG " \o ToJson(store))
=============================================================================
