--------------------------------- MODULE TopK ---------------------------------
(* Listing spanning trees best first: a set of subproblems (forced and forbidden *)
(* edges), each with its best tree.  Taking out the best subproblem splits the   *)
(* other trees it admits by the first edge of the taken tree they lack.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
CONSTANTS D, Weights, Ties
VARIABLES W, heap, out
vars == <<W, heap, out>>
Pairs == {e \in SUBSET (1..D) : Cardinality(e) = 2}
RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup UNION {e \in E : e \cap S # {}} IN IF T = S THEN S ELSE Grow(E, T)
Trees == TLCEval({E \in kSubset(D - 1, Pairs) : Grow(E, {1}) = 1..D})
Total(E) == FoldSet(LAMBDA e, a : a + W[e], 0, E)
Feas(inc, exc) == {E \in Trees : inc \subseteq E /\ E \cap exc = {}}
Rank(e) == Min(e) * D + Max(e)
(* Kruskal under constraints: forced edges first, forbidden last, ties by position *)
Kruskal(inc, exc) ==
  LET key(e) == <<IF e \in inc THEN 0 ELSE IF e \in exc THEN 2 ELSE 1, W[e], Rank(e)>>
      lt(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
      order == SortSeq(SetToSeq(Pairs), LAMBDA e, f : lt(key(e), key(f)))
      add(E, e) == IF Max(e) \in Grow(E, {Min(e)}) THEN E ELSE E \cup {e}
  IN FoldLeft(add, {}, order)
Sub(inc, exc) == LET T == Kruskal(inc, exc) IN IF inc \subseteq T /\ T \cap exc = {} THEN {[inc |-> inc, exc |-> exc, tree |-> T]} ELSE {}
Init == /\ W \in [Pairs -> Weights] /\ heap = Sub({}, {}) /\ out = <<>>
Children(h) ==
  LET free == SortSeq(SetToSeq(h.tree \ h.inc), LAMBDA e, f : Rank(e) < Rank(f))
  IN UNION {Sub(h.inc \cup {free[j] : j \in 1..(i - 1)}, h.exc \cup {free[i]}) : i \in DOMAIN free}
(* with Ties, equally good subproblems may be taken in any order *)
Minimal(h) == \A g \in heap : Total(h.tree) <= Total(g.tree)
Picks == IF heap = {} THEN {} ELSE IF Ties THEN {h \in heap : Minimal(h)} ELSE {CHOOSE h \in heap : Minimal(h)}
Take == \E h \in Picks :
          /\ out' = Append(out, h.tree)
          /\ heap' = (heap \ {h}) \cup Children(h)
          /\ UNCHANGED W
Next == Take
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Listed == {out[i] : i \in DOMAIN out}
Partition ==
  /\ \A t \in Trees : Cardinality({h \in heap : t \in Feas(h.inc, h.exc)}) = IF t \in Listed THEN 0 ELSE 1
Best == \A h \in heap : h.tree \in Feas(h.inc, h.exc) /\ \A t \in Feas(h.inc, h.exc) : Total(h.tree) <= Total(t)
Distinct == Cardinality(Listed) = Len(out)
Ordered == \A i \in 1..(Len(out) - 1) : Total(out[i]) <= Total(out[i + 1])
NoneBetter == out # <<>> => \A t \in Trees \ Listed : Total(out[Len(out)]) <= Total(t)
Complete == heap = {} => Listed = Trees
===============================================================================
