------------------------------- MODULE Builders -------------------------------
(* The architecture builders: which parameter combinations are admissible and   *)
(* what the circuit built for them looks like.                                  *)
(* p.leaves: the leaf modules, [scope, c, r]; the other fields as in BuildGen.   *)
EXTENDS WellFormed
LScope(p) == UNION {Rg(p.leaves[i].scope) : i \in DOMAIN p.leaves}
DisjointLeaves(p) == \A i, j \in DOMAIN p.leaves : i # j => Rg(p.leaves[i].scope) \cap Rg(p.leaves[j].scope) = {}
EqualC(p) == \A i \in DOMAIN p.leaves : p.leaves[i].c = p.leaves[1].c
NV(p) == Cardinality(LScope(p))
Pow2(n) == 2 ^ n
Ceil(a, b) == (a + b - 1) \div b
LeafFit(p) == DisjointLeaves(p) /\ EqualC(p)
(* "yes", "no" or "any": leaf repetitions that are shared by all repetitions, and numbers that do not matter *)
Reps(p) == IF \A i \in DOMAIN p.leaves : p.leaves[i].r = p.reps THEN "yes"
           ELSE IF (\A i \in DOMAIN p.leaves : p.leaves[i].r \in {1, p.reps}) THEN "any" ELSE "no"
Both(b, v) == IF ~b THEN "no" ELSE v
Admissible(p) ==
  CASE p.kind = "rat" ->
         Both(LeafFit(p) /\ p.roots >= 1 /\ p.inner >= 1 /\ p.depth >= 1 /\ p.reps >= 1 /\ p.nsplits = 2 /\ Pow2(p.depth) <= NV(p), Reps(p))
    [] p.kind = "einet" ->
         Both(LeafFit(p) /\ p.roots >= 1 /\ p.inner >= 1 /\ p.depth >= 0 /\ p.reps >= 1 /\ p.layer \in {"einsum", "linsum"}
              /\ Pow2(p.depth) <= NV(p), Reps(p))
    [] p.kind = "conv" ->
         LET t == p.ks ^ p.depth IN
         Both(/\ p.depth >= 1 /\ p.inner >= 1 /\ p.ks >= 1 /\ p.reps = 1 /\ p.h = p.w /\ NV(p) = p.h * p.w
              /\ (Ceil(p.h, t) * t - p.h) % 2 = 0,     \* padding is symmetric
              IF p.leaves[1].r = 1 THEN "yes" ELSE "no")
    [] p.kind = "naive" ->
         Both(/\ DisjointLeaves(p) /\ p.roots >= 1
              /\ \A i \in DOMAIN p.leaves : p.leaves[i].r = 1 /\ p.leaves[i].c = p.roots
              /\ (p.prior # <<>> => p.roots > 1 /\ Len(p.prior) = p.roots /\ \A i \in DOMAIN p.prior : p.prior[i] \notin {"nan", "inf"} /\ RLt("0", p.prior[i]))
              /\ (p.learnable => p.roots > 1), "yes")
(* the requested sizes *)
Ops(st, m, os) == {i \in Reach(st, m) : st[i].op \in os}
Chan(st, i) == ShapeOf(st, i)[2]
Classes(p, st, m) == p.roots > 1 /\ p.kind # "conv" => st[m].op = "sum" /\ Len(st[m].ins) = 1 /\ Chan(st, st[m].ins[1]) = p.roots
FactOk(p, st, m, d) == LET fs == Ops(st, m, {"fact"}) IN Cardinality(fs) = 1 /\ \A f \in fs : st[f].depth = d /\ Len(st[f].groups) = p.reps
Log2(n) == Max({k \in 0..10 : Pow2(k) <= n})
Under(st, m, i) == i \in {st[j].ins[1] : j \in {k \in Reach(st, m) : st[k].op = "rmix"}}
Requested(p, st, m) ==
  /\ Classes(p, st, m)
  /\ CASE p.kind = "rat" ->
            LET ps == Ops(st, m, {"eprod", "oprod"})
                ss == Ops(st, m, {"sum"})
                inner == {s \in ss : s # m \/ p.roots = 1}
            IN /\ FactOk(p, st, m, p.depth)
               /\ Cardinality(ps) = p.depth
               /\ \A i \in ps : st[i].op = (IF p.outer THEN "oprod" ELSE "eprod") /\ st[i].split.k = 2 /\ st[i].split.kind = (IF p.split = "int" THEN "int" ELSE "cons")
               /\ Cardinality(inner) = p.depth
               /\ \A s \in inner : Chan(st, s) = IF Under(st, m, s) THEN p.roots ELSE p.inner
               /\ Cardinality(Ops(st, m, {"rmix"})) = 1
       [] p.kind = "einet" ->
            LET ls == Ops(st, m, {"einsum", "linsum"}) IN
            /\ FactOk(p, st, m, IF p.bottom THEN Log2(NV(p)) ELSE p.depth)
            /\ Cardinality(ls) = p.depth
            /\ \A i \in ls : st[i].op = p.layer
            /\ (p.bottom => \A i \in ls : Chan(st, i) = p.inner)
            /\ (~p.bottom => Cardinality({i \in ls : Chan(st, i) = p.inner}) >= p.depth - 1)
            /\ (p.reps > 1 => Cardinality(Ops(st, m, {"rmix"})) = 1)
       [] p.kind = "conv" ->
            /\ Cardinality(Ops(st, m, {"pconv"})) = p.depth + 1
            /\ Cardinality(Ops(st, m, IF p.sumconv THEN {"sconv"} ELSE {"sum"})) = p.depth + (IF p.sumconv THEN 0 ELSE 1)
            /\ \A i \in Ops(st, m, {"sum", "sconv"}) : Chan(st, i) = IF i = m THEN 1 ELSE p.inner
       [] p.kind = "naive" ->
            IF p.roots = 1 THEN st[m].op = "prod"
            ELSE LET w == st[m].w[1][1][1]
                     pr == IF p.prior = <<>> THEN [i \in 1..p.roots |-> "1"] ELSE p.prior
                 IN \A i \in 1..p.roots : RClose(w[i], RDiv(pr[i], RSum(pr)), "1e-6")
===============================================================================
