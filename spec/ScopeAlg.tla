------------------------------- MODULE ScopeAlg -------------------------------
(* Scopes: pairs of disjoint finite sets of variables, evidence only with a    *)
(* query.  Region graphs: regions with partitions into smaller regions.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Sc(q, e) == [q |-> q, e |-> e]
OkArgs(q, e) == /\ \A i \in DOMAIN q : q[i] >= 0
                /\ \A i \in DOMAIN e : e[i] >= 0
                /\ Cardinality(ToSet(q)) = Len(q) /\ Cardinality(ToSet(e)) = Len(e)
                /\ ToSet(q) \cap ToSet(e) = {} /\ (q = <<>> => e = <<>>)
OkScope(s) == s.q \cap s.e = {} /\ (s.q = {} => s.e = {})
Join(a, b) == LET q == a.q \cup b.q IN Sc(q, (a.e \cup b.e) \ q)
JoinAll(ss) == FoldLeft(Join, ss[1], Tail(ss))
Disjoint(a, b) == a.q \cap b.q = {}
AllDisjoint(ss) == \A i, j \in DOMAIN ss : i < j => Disjoint(ss[i], ss[j])
AllEqual(ss) == \A i, j \in DOMAIN ss : ss[i] = ss[j]
CanRemove(a, v) == v \in a.q /\ (a.q = {v} => a.e = {})
Without(a, v) == Sc(a.q \ {v}, a.e)

Scopes(U) == {s \in [q : SUBSET U, e : SUBSET U] : OkScope(s)}

(* regions: sequence of [s, parts], parts a sequence of sequences of earlier regions *)
PartOk(rs, r, ms) == /\ ms # <<>>
                     /\ AllDisjoint([i \in DOMAIN ms |-> rs[ms[i]].s])
                     /\ UNION {rs[ms[i]].s.q : i \in DOMAIN ms} = rs[r].s.q
RECURSIVE Sem(_, _)
Sem(rs, r) == <<rs[r].s, [i \in DOMAIN rs[r].parts |-> [j \in DOMAIN rs[r].parts[i] |-> Sem(rs, rs[r].parts[i][j])]]>>
RECURSIVE Under(_, _)
Under(rs, r) == {r} \cup UNION {UNION {Under(rs, rs[r].parts[i][j]) : j \in DOMAIN rs[r].parts[i]} : i \in DOMAIN rs[r].parts}
Kids(rs, r) == UNION {ToSet(rs[r].parts[i]) : i \in DOMAIN rs[r].parts}
================================================================================
