------------------------------- MODULE CtxTrace -------------------------------
(* Validates recorded sampling-context histories against RoutingCtx.tla.         *)
EXTENDS RoutingCtx, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, regs, lost   \* lost: the code accepted or refused otherwise, the rest of the history means nothing
vars == <<t, l, regs, lost>>
V(name, ok) == IF ok THEN {} ELSE {name}
Pre(ev) == regs[ev.k]
(* operations after single-field writes of another width are only held to atomicity, except those that must notice *)
Loose(ev) == ev.e \in {"broadcast", "repeat_split", "scatter", "slice", "route", "require", "share_chan", "share_rep"} /\ ~Consistent(Pre(ev))
Result(ev) ==
  IF ev.e \notin {"new", "poke"} /\ Loose(ev) THEN No(NoState) ELSE
  CASE ev.e = "new" -> New(ev.diff, ev.n, ev.ci, ev.mask, ev.rep, ev.tau)
    [] ev.e = "update" -> Update(Pre(ev), ev.ci, ev.mask, ev.rep)
    [] ev.e = "set_ci" -> SetCi(Pre(ev), ev.ci)
    [] ev.e = "set_mask" -> SetMask(Pre(ev), ev.mask)
    [] ev.e = "set_rep" -> SetRep(Pre(ev), ev.rep)
    [] ev.e = "strict" -> Strict(Pre(ev), ev.ci)
    [] ev.e = "copy" -> Copy(Pre(ev))
    [] ev.e = "with_routing" -> WithRouting(Pre(ev), ev.ci, ev.mask)
    [] ev.e = "share_rep" -> ShareRep(Pre(ev), ev.n)
    [] ev.e = "share_chan" -> ShareChan(Pre(ev))
    [] ev.e = "require" -> Require(Pre(ev), ev.w)
    [] ev.e = "broadcast" -> Broadcast(Pre(ev), ev.w, ev.allow)
    [] ev.e = "repeat_split" -> RepeatSplit(Pre(ev), ev.n, ev.w)
    [] ev.e = "scatter" -> Scatter(Pre(ev), ev.groups, ev.w)
    [] ev.e = "slice" -> Slice(Pre(ev), ev.ranges)
    [] ev.e = "route" -> Route(Pre(ev), ev.counts)
    [] ev.e = "validate" -> Validate(Pre(ev), ev.n, ev.f, ev.c, ev.r, ev.widths)
    [] ev.e = "rows" -> Ret(Pre(ev), ActiveRows(Pre(ev)))
    [] OTHER -> Yes(NoState)
Forks == {"copy", "with_routing"}
CtxOps == {"new", "update", "set_ci", "set_mask", "set_rep", "strict", "share_rep", "share_chan", "require", "broadcast",
           "repeat_split", "scatter", "slice", "route", "validate", "rows"} \cup Forks
Near(a, b) == RClose(a, b, "1e-9")
RECURSIVE Same(_, _, _)
Same(a, b, d) == IF d = 0 THEN Near(a, b) ELSE Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i], d - 1)
SameState(diff, a, b) == /\ a.mask = b.mask
                         /\ IF diff THEN Same(a.ci, b.ci, 3) /\ Same(a.rep, b.rep, 2) ELSE a.ci = b.ci /\ a.rep = b.rep
SameOut(ev, diff, o, want) ==
  CASE ev.e \in {"slice", "route"} -> Len(o) = Len(want) /\ \A i \in DOMAIN o :
                                   o[i].mask = want[i].mask /\ (IF diff THEN Same(o[i].ci, want[i].ci, 3) ELSE o[i].ci = want[i].ci)
    [] ev.e = "rows" -> o = want
    [] OTHER -> TRUE
(* the contexts after the event as the specification has them *)
After(ev) ==
  LET r == TLCEval(Result(ev)) IN
  CASE ev.e = "new" -> IF ev.raised THEN regs ELSE Append(regs, [ev.all[Len(ev.all)] EXCEPT !.diff = ev.diff])
    [] ev.e = "poke" -> [regs EXCEPT ![ev.k] = ev.all[ev.k]]
    [] ev.e \in Forks -> IF ev.raised THEN regs ELSE Append(regs, IF r.ok THEN r.out ELSE ev.all[Len(ev.all)])
    [] ev.e \in CtxOps -> IF r.ok /\ ~Loose(ev) THEN [regs EXCEPT ![ev.k] = r.st] ELSE [regs EXCEPT ![ev.k] = IF ev.raised THEN @ ELSE ev.all[ev.k]]
    [] OTHER -> regs
CtxViol(ev) ==
  LET r == TLCEval(Result(ev))
      next == TLCEval(After(ev)) IN
  (IF ev.e # "new" /\ ev.e # "poke" /\ Loose(ev) THEN {} ELSE V("acceptance", ev.e = "poke" \/ ev.raised = ~r.ok))
  \cup (IF ev.e = "new" /\ r.ok /\ ~ev.raised THEN V("state", SameState(ev.diff, ev.all[Len(ev.all)], r.st)) ELSE {})
  \cup V("state", Len(next) = Len(ev.all) /\ \A i \in DOMAIN next : SameState(next[i].diff, ev.all[i], next[i]) /\ ev.all[i].diff = next[i].diff)
  \cup (IF ev.e \in CtxOps /\ ~ev.raised /\ r.ok /\ ev.e # "new" /\ ~Loose(ev) THEN V("returned", SameOut(ev, Pre(ev).diff, ev.out, r.out)) ELSE {})
  \cup V("flags", ev.flags)

(* picking entries by index or by one-hot vector *)
PickViol(ev) ==
  V("picked", Len(ev.out) = Len(ev.tab) /\ \A i \in DOMAIN ev.tab : Near(ev.out[i], ev.tab[i][ev.idx[i] + 1]) /\ Near(ev.hot[i], ev.tab[i][ev.idx[i] + 1]))
Maximal(row, k) == \A j \in DOMAIN row : row[j] = "-inf" \/ (row[k + 1] # "-inf" /\ RLe(row[j], row[k + 1]))
ArgViol(ev) == V("not_maximal", \A i \in DOMAIN ev.tab : ev.act[i] => ev.idx[i] + 1 \in DOMAIN ev.tab[i] /\ Maximal(ev.tab[i], ev.idx[i]))
               \cup V("not_one_hot", \A i \in DOMAIN ev.tab : ev.act[i] => \E k \in DOMAIN ev.tab[i] : Maximal(ev.tab[i], k - 1)
                                     /\ \A j \in DOMAIN ev.hot[i] : Near(ev.hot[i][j], IF j = k THEN "1" ELSE "0"))
(* leaf-parameter records of one sampling pass over near-deterministic leaves: cols are 0-based columns *)
RecViol(ev) ==
  LET hits(b, v) == {q \in (DOMAIN ev.recs) \X (1..40) : q[2] \in DOMAIN ev.recs[q[1]].cols /\ ev.recs[q[1]].cols[q[2]] = v - 1
                                                        /\ ev.recs[q[1]].active[b][q[2]]}
      filled(b, v) == ev.missing[b][v] IN
  V("recorded_wrong_entries", \A b \in DOMAIN ev.out : \A v \in DOMAIN ev.out[b] : Cardinality(hits(b, v)) = (IF filled(b, v) THEN 1 ELSE 0))
  \cup V("recorded_other_parameters", \A b \in DOMAIN ev.out : \A v \in DOMAIN ev.out[b] : \A q \in hits(b, v) :
           RClose(ev.recs[q[1]].loc[b][q[2]], ev.out[b][v], "1e-4"))
  \cup V("recorded_unknown_leaf", \A k \in DOMAIN ev.recs : ev.recs[k].known)
  \cup V("inactive_rows_not_blank", \A k \in DOMAIN ev.recs : \A b \in DOMAIN ev.recs[k].active :
           (\A j \in DOMAIN ev.recs[k].active[b] : ~ev.recs[k].active[b][j]) => \A j \in DOMAIN ev.recs[k].loc[b] : REq(ev.recs[k].loc[b][j], "0"))
Judge(ev) ==
  CASE ev.e \in CtxOps \cup {"poke"} -> IF lost THEN {} ELSE CtxViol(ev)
    [] ev.e = "pick" -> PickViol(ev)
    [] ev.e = "argmax" -> ArgViol(ev)
    [] ev.e = "records" -> RecViol(ev)
    [] ev.e = "eq" -> V(ev.clause, ev.a = ev.b)
    [] ev.e = "reject" -> V("not_rejected", ev.raised)
    [] ev.e = "raise" -> {"unexpected_exception"}
    [] OTHER -> {"unknown_event"}
Effect(ev) == regs' = IF lost' THEN <<>> ELSE IF ev.e \in CtxOps \cup {"poke"} THEN After(ev) ELSE regs
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ regs = <<>> /\ lost = FALSE
TraceNext ==
  /\ l <= Len(Traces[t])
  /\ LET ev == Traces[t][l]
         viol == Judge(ev) IN
     /\ lost' = (lost \/ (ev.e \in CtxOps /\ viol # {}))
     /\ \A c \in viol : PrintT("FAIL|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o c)
     /\ Effect(ev)
  /\ (l = Len(Traces[t]) => PrintT("DONE|" \o ToString(t)))
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
===============================================================================
