------------------------------ MODULE WellFormed ------------------------------
(* Which constructor calls describe a circuit.  Wf(store, n) says of the node  *)
(* n over the modules of the store:                                            *)
(*   "yes"  it is smooth, decomposable and dimensionally consistent;           *)
(*   "no"   it is not a circuit: no value can be assigned to it;               *)
(*   "any"  sizes that only fit by broadcasting: the library may choose, but   *)
(*          an accepted module must evaluate to the shape it reports.          *)
EXTENDS Circuit

EqAll(q) == \A i \in DOMAIN q : q[i] = q[1]
EqOrOne(q) == \A i, j \in DOMAIN q : q[i] = q[j] \/ q[i] = 1 \/ q[j] = 1
(* all must hold for "yes"; any hard violation is "no" *)
Verdict(hard, soft) == IF ~hard THEN "no" ELSE IF soft THEN "yes" ELSE "any"

Dim(w, d) == IF d = 1 THEN Len(w) ELSE IF d = 2 THEN Len(w[1]) ELSE IF d = 3 THEN Len(w[1][1])
             ELSE IF d = 4 THEN Len(w[1][1][1]) ELSE Len(w[1][1][1][1])
(* w's axis d fits the size n exactly, or by sharing one slice *)
Fit(w, d, n) == Dim(w, d) = n
FitB(w, d, n) == Dim(w, d) = n \/ Dim(w, d) = 1 \/ n = 1

IsPartitionIdx(idx, F) ==
  /\ \A k \in DOMAIN idx : Len(idx[k]) = Len(idx[1])
  /\ UNION {Rg(idx[k]) : k \in DOMAIN idx} = 0..(F - 1)
  /\ SumQ([k \in DOMAIN idx |-> Len(idx[k])]) = F
SplitOK(sp, F) == IF sp.kind = "idx" THEN IsPartitionIdx(sp.idx, F) ELSE sp.k >= 1 /\ F % sp.k = 0

IsSide(F) == \E s \in 1..F : s * s = F

Wf(store, n) ==
  LET sh == [i \in DOMAIN n.ins |-> ShapeOf(store, n.ins[i])]
      sc == [i \in DOMAIN n.ins |-> FScope(store, n.ins[i])]
      F == [i \in DOMAIN sh |-> sh[i][1]]
      C == [i \in DOMAIN sh |-> sh[i][2]]
      R == [i \in DOMAIN sh |-> sh[i][3]]
      all == [i \in DOMAIN sc |-> UNION {UnionOf(sc[i][r]) : r \in DOMAIN sc[i]}]
      disj == \A i, j \in DOMAIN all : i # j => all[i] \cap all[j] = {}
      samesc == \A i \in DOMAIN sc : \A r \in 1..(IF EqOrOne(R) THEN Max({Len(sc[1]), Len(sc[i])}) ELSE 1) :
                   sc[i][Bc(Len(sc[i]), r)] = sc[1][Bc(Len(sc[1]), r)]
      sumC == SumQ(C)
      split == n.split.kind # "none"
      parts == IF n.split.kind = "idx" THEN Len(n.split.idx) ELSE n.split.k
  IN CASE n.op = "sum" ->
            Verdict(EqAll(F) /\ EqOrOne(R) /\ samesc /\ Fit(n.w, 2, F[1]) /\ Fit(n.w, 4, sumC) /\ FitB(n.w, 1, MaxOf(R)),
                    EqAll(R) /\ (Fit(n.w, 1, R[1]) \/ R[1] = 1))
       [] n.op = "esum" ->
            Verdict(EqAll(F) /\ EqOrOne(R) /\ samesc /\ EqOrOne(C) /\ Fit(n.w, 2, F[1]) /\ Fit(n.w, 5, Len(n.ins))
                    /\ Fit(n.w, 3, MaxOf(C)) /\ FitB(n.w, 1, MaxOf(R)),
                    EqAll(R) /\ Fit(n.w, 1, R[1]) /\ EqAll(C))
       [] n.op = "rmix" ->
            Verdict(Dim(n.w, 1) = F[1] /\ Dim(n.w, 2) = C[1] /\ (Dim(n.w, 3) = R[1] \/ R[1] = 1) /\ \A r \in DOMAIN sc[1] : sc[1][r] = sc[1][1],
                    Dim(n.w, 3) = R[1])
       [] n.op \in {"prod", "cat1"} ->
            Verdict(disj /\ EqAll(C) /\ EqOrOne(R), EqAll(R))
       [] n.op = "cat2" ->
            Verdict(EqAll(F) /\ samesc /\ EqOrOne(R), EqAll(R))
       [] n.op \in {"eprod", "oprod"} ->
            IF split THEN Verdict(SplitOK(n.split, F[1]), parts >= 2)
            ELSE Verdict(disj /\ EqOrOne(F) /\ EqOrOne(R) /\ (n.op = "eprod" => EqOrOne(C)), EqAll(F) /\ EqAll(R) /\ Len(n.ins) >= 2)
       [] n.op \in {"einsum", "linsum"} ->
            LET Fo == IF split THEN F[1] \div 2 ELSE F[1]
                Cl == C[1]  Cr == IF split THEN C[1] ELSE C[Len(C)]
                wc == IF n.op = "einsum" THEN Fit(n.w, 4, Cl) /\ Fit(n.w, 5, Cr) ELSE Cl = Cr /\ Fit(n.w, 4, Cl)
            IN Verdict(/\ IF split THEN SplitOK(n.split, F[1]) /\ parts = 2 ELSE disj /\ EqAll(F)
                       /\ EqOrOne(R) /\ Fit(n.w, 2, Fo) /\ wc /\ FitB(n.w, 1, MaxOf(R)),
                       EqAll(R) /\ Fit(n.w, 1, R[1]) /\ parts <= 2)
       [] n.op = "fact" ->
            Verdict(disj /\ EqAll(C) /\ EqAll(R),
                    /\ n.reps = R[1] \/ R[1] = 1
                    /\ 2 ^ n.depth <= SumQ(F)
                    /\ \A i \in DOMAIN sc : \A f \in DOMAIN sc[i][1] : \A r \in DOMAIN sc[i] : Cardinality(sc[i][r][f]) = 1 /\ sc[i][r] = sc[i][1])
=============================================================================
