--------------------------------- MODULE Info ---------------------------------
(* Information measures of a circuit over discrete variables, from their      *)
(* textbook definitions on the joint distribution the circuit denotes.        *)
EXTENDS Circuit
(* sizes of variable v claimed by the leaves below m; 0: a leaf that cannot be enumerated *)
SizesOf(st, m, v) ==
  {IF st[i].dist = "bernoulli" THEN 2 ELSE IF st[i].dist = "categorical" THEN Len(st[i].par[1][1][1]) ELSE 0 :
     i \in {j \in Reach(st, m) : st[j].op = "leaf" /\ v \in Rg(st[j].scope)}}
Enumerable(st, m, S) == \A v \in S : Cardinality(SizesOf(st, m, v)) = 1 /\ 0 \notin SizesOf(st, m, v)
SizeOf(st, m, v) == CHOOSE k \in SizesOf(st, m, v) : TRUE

(* one number per row: features multiplied, repetitions and channels aggregated *)
Agg1(q, how) == CASE how = "first" -> q[1]
                  [] how = "logsumexp" -> RSum(q)
                  [] OTHER -> RDiv(RSum(q), RInt(Len(q)))
Agg(T, ca, ra) ==
  Agg1([c \in 1..ChanT(T) |-> Agg1([r \in 1..RepsT(T) |-> RProd([f \in 1..FeatT(T) |-> T[r][f][c]])], ra)], ca)
PrRow(st, ev, row) == Agg(Eval(st, ev.m, row), ev.cagg, ev.ragg)

RECURSIVE GridOver(_, _, _, _)
GridOver(st, m, rows, vs) ==
  IF vs = <<>> THEN rows
  ELSE LET v == Head(vs) + 1
           k == SizeOf(st, m, Head(vs))
       IN GridOver(st, m, [i \in 1..(Len(rows) * k) |-> [rows[((i - 1) \div k) + 1] EXCEPT ![v] = RInt((i - 1) % k)]], Tail(vs))
Only(row, S) == [v \in DOMAIN row |-> IF v - 1 \in S THEN row[v] ELSE "nan"]
Log2Row(p) == IF REq(p, Z) THEN Z ELSE RLn(p)
(* the quantity averaged over the distribution: <<probability, value>> per joint assignment *)
Terms(st, ev) ==
  LET X == Rg(ev.X)  Y == Rg(ev.Y)  W == Rg(ev.Z)
      grid == TLCEval(GridOver(st, ev.m, <<[v \in 1..ev.nv |-> "nan"]>>, SetToSeq(X \cup Y \cup W)))
      p(row, S) == Log2Row(PrRow(st, ev, Only(row, S)))
  IN TLCEval([i \in DOMAIN grid |->
       <<PrRow(st, ev, grid[i]),
         CASE ev.kind = "entropy" -> RNeg(p(grid[i], X))
           [] ev.kind = "mi" -> RSub(p(grid[i], X \cup Y), RAdd(p(grid[i], X), p(grid[i], Y)))
           [] OTHER -> RSub(RAdd(p(grid[i], X \cup Y \cup W), p(grid[i], W)), RAdd(p(grid[i], X \cup W), p(grid[i], Y \cup W)))>>])
Mean(ts) == RDot([i \in DOMAIN ts |-> ts[i][1]], [i \in DOMAIN ts |-> ts[i][2]])
Var(ts) == LET mu == Mean(ts) IN
  RDot([i \in DOMAIN ts |-> ts[i][1]], [i \in DOMAIN ts |-> LET d == RSub(ts[i][2], mu) IN RMul(d, d)])

Sets(ev) == CASE ev.kind = "entropy" -> <<ev.X>> [] ev.kind = "mi" -> <<ev.X, ev.Y>> [] OTHER -> <<ev.X, ev.Y, ev.Z>>
MustReject(st, ev) ==
  \/ ev.method \notin {"mc", "exact"}
  \/ \E i \in DOMAIN Sets(ev) : Sets(ev)[i] = <<>>
  \/ \E i, j \in DOMAIN Sets(ev) : i # j /\ Rg(Sets(ev)[i]) \cap Rg(Sets(ev)[j]) # {}
  \/ ev.method = "exact" /\ ~Enumerable(st, ev.m, Rg(ev.X) \cup Rg(ev.Y) \cup Rg(ev.Z))
  \/ ev.method = "mc" /\ ev.n < 1
InfoClauses(st, ev) ==
  IF MustReject(st, ev) THEN IF ev.raised THEN {} ELSE {"not_rejected"}
  ELSE IF ev.raised THEN {"admissible_rejected"}
  ELSE IF ~Enumerable(st, ev.m, Rg(ev.X) \cup Rg(ev.Y) \cup Rg(ev.Z)) THEN {}   \* Monte-Carlo estimates of densities: not judged
  ELSE LET ts == Terms(st, ev) IN
       IF ev.method = "exact" THEN IF RClose(ev.out, Mean(ts), "1e-8") THEN {} ELSE {"value"}
       ELSE LET d == RSub(ev.out, Mean(ts)) IN
            IF RFin(ev.out) /\ RLe(RMul(RMul(d, d), RInt(ev.n)), RMul("49", RAdd(Var(ts), "1e-6"))) THEN {} ELSE {"estimate"}

-----------------------------------------------------------------------------
(* conditional probability of y = a given the rest of the row; "nan" when the rest is impossible *)
CondP(st, ev, row) ==
  LET d == PrRow(st, ev, [row EXCEPT ![ev.y + 1] = "nan"])
  IN IF REq(d, Z) THEN "nan" ELSE RDiv(PrRow(st, ev, [row EXCEPT ![ev.y + 1] = ev.a]), d)
Clamp(x, lo, hi) == IF RLt(x, lo) THEN lo ELSE IF RLt(hi, x) THEN hi ELSE x
LogOdds(st, ev, row) ==
  LET p == CondP(st, ev, row)
      n == RInt(ev.n)
      l == Clamp(RDiv(RAdd(RMul(p, n), One), RAdd(n, RInt(IF ev.k = 0 THEN SizeOf(st, ev.m, ev.y) ELSE ev.k))), ev.eps, RSub(One, ev.eps))
  IN RSub(RLn(l), RLn(RSub(One, l)))
Possible(st, ev, row) == CondP(st, ev, row) # "nan"
CondClauses(st, ev) ==
  IF \A i \in DOMAIN ev.rows : Possible(st, ev, ev.rows[i]) => RClose(ev.out[i], CondP(st, ev, ev.rows[i]), "1e-8") THEN {} ELSE {"value"}
WoeReject(st, ev) == ev.n < 1 \/ (ev.k = 0 /\ ~Enumerable(st, ev.m, {ev.y}))
WoeClauses(st, ev) ==
  IF WoeReject(st, ev) THEN IF ev.raised THEN {} ELSE {"not_rejected"}
  ELSE IF ev.raised THEN {"admissible_rejected"}
  ELSE IF \A i \in DOMAIN ev.rows : Possible(st, ev, ev.rows[i]) /\ Possible(st, ev, ev.less[i])
            => RClose(ev.out[i], RSub(LogOdds(st, ev, ev.rows[i]), LogOdds(st, ev, ev.less[i])), "1e-7") THEN {} ELSE {"value"}
(* attribution of every observed cell: its absence's effect on the log odds *)
LooClauses(st, ev) ==
  LET base(i) == ev.rows[i]
      cell(i, v) == IF v = ev.y + 1 \/ ev.rows[i][v] = "nan" THEN "nan"
                    ELSE RSub(LogOdds(st, ev, base(i)), LogOdds(st, ev, [base(i) EXCEPT ![v] = "nan"]))
  IN IF WoeReject(st, ev) THEN IF ev.raised \/ \A i \in DOMAIN ev.rows : \A v \in DOMAIN ev.rows[i] : v = ev.y + 1 \/ ev.rows[i][v] = "nan" THEN {} ELSE {"not_rejected"}
     ELSE IF ev.raised THEN {"admissible_rejected"}
     ELSE IF \A i \in DOMAIN ev.rows : \A v \in DOMAIN ev.rows[i] :
               (Possible(st, ev, base(i)) /\ (v # ev.y + 1 => Possible(st, ev, [base(i) EXCEPT ![v] = "nan"])))
               => LET c == cell(i, v) IN (c = "nan" /\ ev.out[i][v] = "nan") \/ (c # "nan" /\ RClose(ev.out[i][v], c, "1e-7")) THEN {} ELSE {"value"}
===============================================================================
