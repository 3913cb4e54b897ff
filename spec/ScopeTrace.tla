------------------------------- MODULE ScopeTrace -------------------------------
(* Validates recorded scope computations and region-graph histories.             *)
EXTENDS ScopeAlg, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, regs, rs
vars == <<t, l, regs, rs>>
V(name, ok) == IF ok THEN {} ELSE {name}
S(j) == Sc(ToSet(j.q), ToSet(j.e))
Plain(j) == Len(j.q) = Cardinality(ToSet(j.q)) /\ Len(j.e) = Cardinality(ToSet(j.e))
Is(j, s) == Plain(j) /\ S(j) = s
Arg(i) == regs[i]
(* one constructor call: given argument lists, recorded outcome *)
NewViol(ev) == IF OkArgs(ev.qa, ev.ea)
               THEN V("rejected", ~ev.raised) \cup (IF ev.raised THEN {} ELSE
                    V("wrong_scope", ev.out.q = ev.qa /\ ev.out.e = ev.ea) \cup V("wrong_length", ev.len = Len(ev.qa))
                    \cup V("wrong_flags", ev.empty = (ev.qa = <<>>) /\ ev.cond = (ev.ea # <<>>)))
               ELSE V("accepted", ev.raised)
(* all binary operations of two scopes *)
PairViol(ev) ==
  LET a == S(ev.a)  b == S(ev.b) IN
  V("join", Is(ev.join, Join(a, b)))
  \cup V("disjoint", ev.disjoint = Disjoint(a, b))
  \cup V("equality", ev.eq = (a = b) /\ ev.ne = (a # b) /\ ev.eqq = (a.q = b.q) /\ ev.eqe = (a.e = b.e))
  \cup V("hash", a = b => ev.samehash)
  \cup V("set_membership", ev.inset = (a = b))
  \cup V("operands_changed", ev.a2 = ev.a /\ ev.b2 = ev.b)
ListViol(ev) ==
  LET ss == [i \in DOMAIN ev.ss |-> S(ev.ss[i])] IN
  V("join_all", Is(ev.join, JoinAll(ss))) \cup V("all_disjoint", ev.disjoint = AllDisjoint(ss)) \cup V("all_equal", ev.equal = AllEqual(ss))
RemViol(ev) ==
  LET a == S(ev.a) IN
  IF CanRemove(a, ev.v) THEN V("rejected", ~ev.raised) \cup (IF ev.raised THEN {} ELSE V("remove", Is(ev.out, Without(a, ev.v))))
  ELSE V("accepted", ev.raised)
(* region graphs: regs[i] numbers the real region objects, listed by their number *)
PartViol(ev) == V("acceptance", ev.raised = ~PartOk(rs, ev.r, ev.ms))
                \cup V("partitions", ev.parts = (IF PartOk(rs, ev.r, ev.ms) THEN Append(rs[ev.r].parts, ev.ms) ELSE rs[ev.r].parts))
LsViol(ev) ==
  LET want == {Sem(rs, x) : x \in Under(rs, ev.r)}
      pos == [i \in DOMAIN ev.post |-> Sem(rs, ev.post[i])] IN
  V("regions", {Sem(rs, x) : x \in ToSet(ev.regions)} = want /\ Len(ev.regions) = Cardinality(want))
  \cup V("post_order", ToSet(pos) = want /\ Len(ev.post) = Cardinality(want))
  \cup V("children_first", \A i \in DOMAIN pos : \A k \in Kids(rs, ev.post[i]) : \E j \in 1..(i - 1) : pos[j] = Sem(rs, k))
  \cup V("root_last", pos # <<>> /\ pos[Len(pos)] = Sem(rs, ev.r))
Judge(ev) ==
  CASE ev.e = "new" -> NewViol(ev)
    [] ev.e = "pair" -> PairViol(ev)
    [] ev.e = "list" -> ListViol(ev)
    [] ev.e = "rem" -> RemViol(ev)
    [] ev.e = "region" -> {}
    [] ev.e = "part" -> PartViol(ev)
    [] ev.e = "ls" -> LsViol(ev)
    [] ev.e = "eq" -> V(ev.clause, ev.a = ev.b)
    [] ev.e = "reject" -> V("not_rejected", ev.raised)
    [] ev.e = "raise" -> {"unexpected_exception"}
    [] OTHER -> {"unknown_event"}
Effect(ev) ==
  rs' = CASE ev.e = "region" -> Append(rs, [s |-> S(ev.s), parts |-> <<>>])
          [] ev.e = "part" -> IF PartOk(rs, ev.r, ev.ms) THEN [rs EXCEPT ![ev.r].parts = Append(@, ev.ms)] ELSE rs
          [] OTHER -> rs
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ rs = <<>> /\ regs = <<>>
TraceNext ==
  /\ l <= Len(Traces[t])
  /\ LET ev == Traces[t][l] IN
     /\ \A c \in Judge(ev) : PrintT("FAIL|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o c)
     /\ Effect(ev)
  /\ (l = Len(Traces[t]) => PrintT("DONE|" \o ToString(t)))
  /\ l' = l + 1 /\ t' = t /\ UNCHANGED regs
TraceSpec == TraceInit /\ [][TraceNext]_vars
================================================================================
