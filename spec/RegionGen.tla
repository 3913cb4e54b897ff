------------------------------- MODULE RegionGen -------------------------------
(* Histories building region graphs, with accepted and refused partitions.      *)
EXTENDS ScopeAlg, Json, Randomization
CONSTANTS NV, MaxLen
VARIABLES rs, hist
vars == <<rs, hist>>
Init == rs = <<>> /\ hist = <<>>
P(S) == {RandomElement(S)}
New == \E q \in P(SUBSET (0..NV - 1)) : \E e \in P({{}} \cup {{}} \cup (IF q = {} THEN {{}} ELSE SUBSET ((0..NV - 1) \ q))) :
  /\ rs' = Append(rs, [s |-> Sc(q, e), parts |-> <<>>])
  /\ hist' = Append(hist, [op |-> "new", q |-> SetToSeq(q), e |-> SetToSeq(e)])
(* a partition aimed at region r: mostly a real one, built from earlier regions *)
Good(r) == {ms \in UNION {[1..k -> 1..(r - 1)] : k \in 1..3} : PartOk(rs, r, ms)}
Try(r, ms) == /\ rs' = IF PartOk(rs, r, ms) THEN [rs EXCEPT ![r].parts = Append(@, ms)] ELSE rs
              /\ hist' = Append(hist, [op |-> "part", r |-> r, ms |-> ms])
AddGood == rs # <<>> /\ \E r \in P(DOMAIN rs) : (Good(r) # {}) /\ \E ms \in P(Good(r)) : Try(r, ms)
AddAny == rs # <<>> /\ \E r \in P(DOMAIN rs) : r > 1 /\ \E k \in P(1..3) : \E ms \in P([1..k -> 1..(r - 1)]) : Try(r, ms)
List == rs # <<>> /\ \E r \in P(DOMAIN rs) : hist' = Append(hist, [op |-> "list", r |-> r]) /\ UNCHANGED rs
Next == Len(hist) < MaxLen /\ ((Len(rs) < 7 /\ New) \/ (Len(rs) < 4 /\ New) \/ AddGood \/ AddGood \/ AddAny \/ (Len(hist) > MaxLen - 4 /\ List))
Spec == Init /\ [][Next]_vars
Covered == \A r \in DOMAIN rs : \A i \in DOMAIN rs[r].parts : PartOk(rs, r, rs[r].parts[i])
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
================================================================================
