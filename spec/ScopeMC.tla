------------------------------- MODULE ScopeMC -------------------------------
(* The algebra itself: joins stay scopes, are commutative, associative,        *)
(* idempotent, and pairwise disjointness can be decided by accumulated joins.  *)
EXTENDS ScopeAlg
CONSTANT U
VARIABLES a, b, c
Init == a \in Scopes(U) /\ b \in Scopes(U) /\ c \in Scopes(U)
Spec == Init /\ [][FALSE]_<<a, b, c>>
Closed == OkScope(Join(a, b))
Commutes == Join(a, b) = Join(b, a)
Idempotent == Join(a, a) = a
Associates == Join(a, Join(b, c)).q = Join(Join(a, b), c).q /\ Join(a, Join(b, c)).e = Join(Join(a, b), c).e
Accumulates == AllDisjoint(<<a, b, c>>) = (Disjoint(a, b) /\ Disjoint(Join(a, b), c))
================================================================================
