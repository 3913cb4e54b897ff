------------------------------ MODULE CircuitMC ------------------------------
(* Design-level check of the circuit semantics.  Starting from a few small    *)
(* leaf layers over binary variables, every well-formed operator application  *)
(* is added (with fixed weight tables that include zeros), and for the newest *)
(* module all rows with and without missing values are tried:                 *)
(*   Normalised  nothing known has probability one, at every output entry;    *)
(*   SummedOut   a missing variable is the sum over its values;               *)
(*   Boxes       a one-point box has the point's probability, and decoding    *)
(*               boxes agree with the values;                                 *)
(*   NormalForm  the sum-of-terms form used by EM denotes the same table;     *)
(*   Monotone    an EM step (weights and leaves) never lowers the likelihood; *)
(*   Decodable   every evidence row has an admissible MPE completion that     *)
(*               keeps the evidence.                                          *)
EXTENDS EM, Sampling
CONSTANTS MaxInner, Starts
VARIABLES store, kind
vars == <<store, kind>>

NoSplit == [kind |-> "none", k |-> 1, idx |-> <<>>]
Tenth(k) == RDiv(RInt(k), "10")
BLeaf(vs, C, R) ==
  [op |-> "leaf", ins |-> <<>>, dist |-> "bernoulli", scope |-> vs, aux |-> <<>>, split |-> NoSplit,
   par |-> [r \in 1..R |-> [f \in 1..Len(vs) |-> [c \in 1..C |-> <<Tenth(((11 * vs[f] + 5 * c + 7 * r) % 9) + 1)>>]]]]
Start(k) == CASE k = 1 -> <<BLeaf(<<0>>, 2, 1), BLeaf(<<1>>, 2, 1), BLeaf(<<2>>, 2, 1), BLeaf(<<0, 1>>, 2, 1)>>
              [] k = 2 -> <<BLeaf(<<0, 1>>, 1, 2), BLeaf(<<1, 0>>, 1, 2), BLeaf(<<2>>, 1, 2)>>
              [] k = 3 -> <<BLeaf(<<0, 1, 2, 3>>, 2, 2)>>
              [] k = 4 -> <<BLeaf(<<2, 0>>, 1, 1), BLeaf(<<1, 3>>, 2, 1)>>
NV(k) == IF k \in {3, 4} THEN 4 ELSE 3
N == Len(store)
Sh(i) == ShapeOf(store, i)

(* fixed weight vectors of length n, some with zero entries *)
Raw(s, n) == [j \in 1..n |-> IF n = 1 THEN 1 ELSE ((5 * s + 3 * j) % 4)]
Wv(s, n) == LET q == Raw(s, n)  t == SumQ(q) IN
            TLCEval([j \in 1..n |-> IF t = 0 THEN RDiv(One, RInt(n)) ELSE RDiv(RInt(q[j]), RInt(t))])
W4(R, F, Co, Ci) == TLCEval([r \in 1..R |-> [f \in 1..F |-> [o \in 1..Co |-> Wv(N + r + 2 * f + 3 * o, Ci)]]])
WE(R, F, Co, I, J) == TLCEval([r \in 1..R |-> [f \in 1..F |-> [o \in 1..Co |->
                        LET q == Wv(N + r + 2 * f + 3 * o, I * J) IN [i \in 1..I |-> [j \in 1..J |-> q[(i - 1) * J + j]]]]]])
WS(R, F, Ci, Co, I) == TLCEval([r \in 1..R |-> [f \in 1..F |-> [c \in 1..Ci |-> [o \in 1..Co |-> Wv(N + r + 2 * f + 3 * o + c, I)]]]])
WR(F, C, R) == TLCEval([f \in 1..F |-> [c \in 1..C |-> Wv(N + f + 3 * c, R)]])

Splits2(F) == IF F % 2 # 0 THEN {}
              ELSE {[kind |-> "cons", k |-> 2, idx |-> <<>>], [kind |-> "int", k |-> 2, idx |-> <<>>],
                    [kind |-> "idx", k |-> 2, idx |-> [j \in 1..2 |-> [z \in 1..(F \div 2) |-> F - 2 * z + (j - 1)]]]}
Sq(F) == F = 4
Unary(i) ==
  LET s == Sh(i)  F == s[1]  C == s[2]  R == s[3]
      nd(op, w, sp) == [op |-> op, ins |-> <<i>>, w |-> w, split |-> sp]
  IN {nd("sum", W4(R, F, o, C), NoSplit) : o \in 1..2}
     \cup (IF R = 1 THEN {nd("sum", W4(2, F, 1, C), NoSplit)} ELSE {nd("rmix", WR(F, C, R), NoSplit)})
     \cup {[op |-> "prod", ins |-> <<i>>, split |-> NoSplit]}
     \cup {[op |-> op, ins |-> <<i>>, split |-> sp] : op \in {"eprod", "oprod"}, sp \in Splits2(F)}
     \cup {nd("einsum", WE(R, F \div 2, 2, C, C), sp) : sp \in Splits2(F)}
     \cup {nd("linsum", W4(R, F \div 2, 2, C), sp) : sp \in Splits2(F)}
     \cup (IF F < 2 THEN {} ELSE
           {[op |-> "fact", ins |-> <<i>>, reps |-> R, depth |-> 1, split |-> NoSplit,
             groups |-> [r \in 1..R |-> [g \in 1..2 |->
               SelectSeq(Iota(F), LAMBDA f : IF r = 1 THEN f % 2 = g % 2 ELSE (f <= F \div 2) = (g = 1))]]]})
     \cup (IF ~Sq(F) THEN {} ELSE
           {[op |-> "pconv", ins |-> <<i>>, split |-> NoSplit, groups |-> <<<<1, 2>>, <<3, 4>>>>],
            [op |-> "sconv", ins |-> <<i>>, split |-> NoSplit, w |-> W4(R, 4, 2, C), kpos |-> <<1, 2, 3, 4>>],
            [op |-> "sconv", ins |-> <<i>>, split |-> NoSplit, w |-> W4(R, 1, 1, C), kpos |-> <<1, 1, 1, 1>>]})
Binary(i, j) ==
  LET a == Sh(i)  b == Sh(j)  F == a[1]  R == a[3]
      nd(op, w) == [op |-> op, ins |-> <<i, j>>, w |-> w, split |-> NoSplit]
  IN {nd("sum", W4(R, F, 1, a[2] + b[2])), nd("esum", WS(R, F, Max({a[2], b[2]}), 2, 2)),
      nd("einsum", WE(R, F, 2, a[2], b[2])), nd("linsum", W4(R, F, 2, a[2]))}
     \cup {[op |-> op, ins |-> <<i, j>>, split |-> NoSplit] : op \in {"cat1", "cat2", "prod", "eprod", "oprod"}}

Conv(n) == n.op \in {"pconv", "sconv"}
(* a row of a factorised or convolved module may have different scopes per repetition *)
SameS(i) == LET S == FScope(store, i) IN \A r \in DOMAIN S : S[r] = S[1]
Singles(i) == LET S == FScope(store, i) IN \A r \in DOMAIN S : \A f \in DOMAIN S[r] : Cardinality(S[r][f]) = 1
Good(n) ==
  IF n.op = "pconv" THEN TRUE
  ELSE IF n.op = "sconv" THEN TRUE
  ELSE IF n.op = "fact" THEN Singles(n.ins[1]) /\ SameS(n.ins[1])
  ELSE Wf(store, n) = "yes"
Inners == Cardinality({i \in 1..N : store[i].op # "leaf"})

Init == \E k \in Starts : kind = k /\ store = Start(k)
(* the second and later operators use the newest module *)
Pick(i, j) == Inners = 0 \/ i = N \/ j = N
Next == /\ Inners < MaxInner
        /\ \E n \in UNION ({Unary(i) : i \in {i \in 1..N : Pick(i, i)}}
                           \cup {Binary(i, j) : <<i, j>> \in {q \in (1..N) \X (1..N) : q[1] # q[2] /\ Pick(q[1], q[2])}}) :
             /\ Good(n)
             /\ store' = Append(store, n)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Rows == [1..NV(kind) -> {"nan", "0", "1"}]
Vs == 1..NV(kind)
NaN == [v \in Vs |-> "nan"]
Full == [Vs -> {"0", "1"}]
Tab(e) == Eval(store, N, e)
Eq(a, b) == RClose(a, b, "1e-25")
EqT(A, B) == /\ Len(A) = Len(B)
             /\ \A r \in DOMAIN A : /\ Len(A[r]) = Len(B[r])
                                    /\ \A f \in DOMAIN A[r] : /\ Len(A[r][f]) = Len(B[r][f])
                                                             /\ \A c \in DOMAIN A[r][f] : Eq(A[r][f][c], B[r][f][c])
Inner_ == N > Len(Start(kind))

Normalised == Inner_ => EqT(Tab(NaN), OneTab(Tab(NaN)))
SummedOut == Inner_ =>
  LET Ts == TLCEval([e \in Rows |-> Tab(e)])
      S == FScope(store, N)
  IN \A e \in Rows : \A v \in Vs : e[v] = "nan" =>
       LET A == Ts[e]  B == Ts[[e EXCEPT ![v] = "0"]]  C == Ts[[e EXCEPT ![v] = "1"]] IN
       \A r \in DOMAIN A : \A f \in DOMAIN A[r] : \A c \in DOMAIN A[r][f] :
         IF v - 1 \in S[Bc(Len(S), r)][f] THEN Eq(A[r][f][c], RAdd(B[r][f][c], C[r][f][c]))
         ELSE A[r][f][c] = B[r][f][c] /\ A[r][f][c] = C[r][f][c]
Shapes == Inner_ => LET T == Tab(NaN) IN ShapeOf(store, N) = <<Len(T[1]), Len(T[1][1]), Len(T)>>
Boxes == Inner_ =>
  \A e \in Rows : LET T == TLCEval(Tab(e)) IN
    /\ EqT(EvalIv(store, N, e, e), T)
    /\ EqT(EvalBox(store, N, e, NaN, NaN, FALSE), T)
    /\ EqT(EvalBox(store, N, NaN, e, e, FALSE), T)
NormalForm == Inner_ =>
  \A e \in Full : LET Ts == EvalAll(store, N, LAMBDA n : LeafT(n, e))
                      cv == [k \in DOMAIN store[N].ins |-> Ts[store[N].ins[k]]]
                  IN EqT(Ts[N], ByTerms(store[N], cv, Ts[N]))

(* the EM step of the specification, with Bernoulli leaves *)
Data == LET n == NV(kind) IN
        <<[v \in 1..n |-> "1"], [v \in 1..n |-> IF v = 1 THEN "0" ELSE "1"], [v \in 1..n |-> IF v % 2 = 0 THEN "1" ELSE "0"],
          [v \in 1..n |-> IF v % 2 = 0 THEN "1" ELSE "0"]>>
RECURSIVE Build(_, _, _, _)
Build(w, d, ix, V) == IF d = 0 THEN V[ix] ELSE [i \in DOMAIN w |-> Build(w[i], d - 1, Append(ix, i), V)]
Stepped ==
  LET fl == TLCEval([b \in DOMAIN Data |-> Flow(store, N, Data[b])])
      need == Reach(store, N)
      neww(i) ==
        LET n == store[i]  D == Depth(n.op)  d == D - WDims(n.op)  P == Paths(n.w, D)
            cnt == TLCEval([p \in P |-> RSum([b \in DOMAIN fl |-> fl[b].N[i][p]])])
            V == TLCEval([p \in P |-> LET g == SetToSeq({q \in P : SubSeq(q, 1, d) = SubSeq(p, 1, d)})
                                         t == RSum([k \in DOMAIN g |-> cnt[g[k]]])
                                     IN IF REq(t, Z) THEN WAt(n.w, p) ELSE RDiv(cnt[p], t)])
        IN Build(n.w, D, <<>>, V)
      newp(i) ==
        LET n == store[i] IN
        [r \in DOMAIN n.par |-> [f \in DOMAIN n.par[r] |-> [c \in DOMAIN n.par[r][f] |->
           LET g == [b \in DOMAIN Data |-> fl[b].G[i][r][f][c]]
               t == RSum(g)
           IN IF REq(t, Z) THEN n.par[r][f][c]
              ELSE <<RDiv(RDot(g, [b \in DOMAIN Data |-> Data[b][n.scope[f] + 1]]), t)>>]]]
  IN [i \in 1..N |-> IF i \notin need THEN store[i]
                     ELSE IF store[i].op = "leaf" THEN [store[i] EXCEPT !.par = newp(i)]
                     ELSE IF HasWeights(store[i]) THEN [store[i] EXCEPT !.w = neww(i)] ELSE store[i]]
EntriesOf(T) == FoldLeft(LAMBDA a, r : a \o FoldLeft(LAMBDA b, f : b \o T[r][f], <<>>, Iota(Len(T[r]))), <<>>, Iota(Len(T)))
Vals(st) == FoldLeft(LAMBDA a, b : a \o EntriesOf(Eval(st, N, Data[b])), <<>>, Iota(Len(Data)))
Monotone == Inner_ =>
  LET before == Vals(store) IN
  (\A k \in DOMAIN before : ~REq(before[k], Z)) =>
     LET after == Vals(TLCEval(Stepped)) IN
     /\ \A k \in DOMAIN after : ~REq(after[k], Z)
     /\ RLe(RSum([k \in DOMAIN before |-> RLn(before[k])]), RAdd(RSum([k \in DOMAIN after |-> RLn(after[k])]), "1e-20"))

Decodable == Inner_ =>
  \A e \in {NaN} \cup {[NaN EXCEPT ![v] = x] : v \in Vs, x \in {"0", "1"}} :
    LET Ts == TLCEval(EvalAll(store, N, LAMBDA n : LeafT(n, e)))
        os == {o \in Full : \A v \in Vs : e[v] = "nan" \/ o[v] = e[v]}
    IN \A r \in DOMAIN Ts[N] : \A f \in DOMAIN Ts[N][r] : \A c \in DOMAIN Ts[N][r][f] :
         \E o \in os : MpeOk(store, Ts, TRUE, e, o, N, r, f, c)
=============================================================================
