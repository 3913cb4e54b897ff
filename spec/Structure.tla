------------------------------- MODULE Structure -------------------------------
(* Reports about the graph of a circuit: statistics, textual trees, drawings.     *)
(* G: nodes with kids (in order, repeated when used twice), skip (concatenations  *)
(* and splits), cat (a concatenation given as the only input), tensors.           *)
EXTENDS Integers, Sequences, RealNum, FiniteSets, FiniteSetsExt, SequencesExt, TLC
StV(n, ok) == IF ok THEN {} ELSE {n}
StRg(s) == {s[i] : i \in DOMAIN s}
StFlat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
StSum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

(* a concatenation that only feeds one module is shown as that module's inputs *)
ShownKids(G, i) ==
  IF G[i].only /\ G[G[i].kids[1]].cat THEN G[G[i].kids[1]].kids ELSE G[i].kids
RECURSIVE ReachFrom(_, _, _)
ReachFrom(K, S, todo) ==
  IF todo = {} THEN S
  ELSE LET new == UNION {StRg(K[i]) : i \in todo} \ S IN ReachFrom(K, S \cup new, new)
RECURSIVE LongestFrom(_, _, _)
(* longest paths by repeated relaxation: level[i] = 1 + max level of the kids *)
LongestFrom(K, R, lev) ==
  LET nxt == TLCEval([i \in DOMAIN lev |-> IF i \notin R \/ K[i] = <<>> THEN 1 ELSE 1 + Max({lev[k] : k \in StRg(K[i])})])
  IN IF nxt = lev THEN lev ELSE LongestFrom(K, R, nxt)
HistOf(seq) == LET q == SetToSeq(StRg(seq)) IN {<<x, Cardinality({i \in DOMAIN seq : seq[i] = x})>> : x \in StRg(q)}
StatsClauses(ev) ==
  LET G == ev.g
      K == TLCEval([i \in DOMAIN G |-> ShownKids(G, i)])
      R == TLCEval(ReachFrom(K, {1}, {1}))
      rs == SetToSortSeq(R, <)
      deg(j) == StSum([q \in DOMAIN rs |-> Cardinality({p \in DOMAIN K[rs[q]] : K[rs[q]][p] = j})])
      sc == [q \in DOMAIN rs |-> G[rs[q]].nscope]
      tens == UNION {StRg(G[i].tensors) : i \in R}
      ids == {x.id : x \in tens}
      names == StFlat([q \in DOMAIN rs |-> [p \in DOMAIN G[rs[q]].tensors |-> G[rs[q]].tensors[p].name]])
      shared == {j \in R : deg(j) > 1}
      o == ev.out
  IN StV("nodes", o.nodes = Cardinality(R))
     \cup StV("edges", o.edges = StSum([q \in DOMAIN rs |-> Len(K[rs[q]])]))
     \cup StV("parameters", o.params = StSum(LET q == SetToSeq(ids) IN [i \in DOMAIN q |-> (CHOOSE x \in tens : x.id = q[i]).size]))
     \cup StV("node_types", StRg(o.types) = HistOf([q \in DOMAIN rs |-> G[rs[q]].type]) /\ Len(o.types) = Cardinality(StRg(o.types)))
     \cup StV("parameter_types", StRg(o.ptypes) = HistOf(names))
     \cup StV("depth", o.depth = LongestFrom(K, R, [i \in DOMAIN G |-> 1])[1])
     \cup StV("scope_sizes", StRg(o.scopes) = HistOf(sc) /\ o.smin = Min(StRg(sc)) /\ o.smax = Max(StRg(sc))
                             /\ RClose(o.smean, RDiv(RInt(StSum(sc)), RInt(Len(sc))), "1e-9"))
     \cup StV("shared_nodes", o.shared = Cardinality(shared) /\ o.dag = (shared # {}))

(* the tree of the circuit down to a depth: one line per visit, with which ancestors are last children *)
RECURSIVE LinesOf(_, _, _, _, _)
LinesOf(G, K, i, last, depth) ==
  <<[last |-> last, node |-> i]>> \o
  (IF depth >= 0 /\ Len(last) >= depth THEN <<>>
   ELSE StFlat(TLCEval([q \in DOMAIN K[i] |-> LinesOf(G, K, K[i][q], Append(last, q = Len(K[i])), depth)])))
ShowClauses(ev) ==
  LET G == ev.g
      K == TLCEval([i \in DOMAIN G |-> ShownKids(G, i)])
      want == LinesOf(G, K, 1, <<>>, ev.depth)
      out == ev.out
      same == Len(out) = Len(want)
  IN StV("lines", same)
     \cup (IF ~same THEN {} ELSE
            StV("children_in_order", \A q \in DOMAIN want : out[q].type = G[want[q].node].type /\ Len(out[q].last) = Len(want[q].last))
            \cup StV("branches", \A q \in DOMAIN want : out[q].last = want[q].last)
            (* the displayed R is the module's configured number of repetitions *)
            \cup StV("shape", \A q \in DOMAIN want : out[q].D = G[want[q].node].D /\ out[q].C = G[want[q].node].C /\ out[q].R \in {0, G[want[q].node].reps})
            \cup StV("scope", ~ev.scopes \/ \A q \in DOMAIN want : StRg(out[q].scope) = StRg(G[want[q].node].scope)))

(* drawings leave out concatenations and splits below the root *)
RECURSIVE DrawnKids(_, _)
DrawnKids(G, ks) == StFlat([q \in DOMAIN ks |-> IF G[ks[q]].skip THEN DrawnKids(G, G[ks[q]].kids) ELSE <<ks[q]>>])
Bag(s) == [x \in StRg(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
DrawClauses(ev) ==
  LET G == ev.g
      K == TLCEval([i \in DOMAIN G |-> IF ev.skip THEN DrawnKids(G, G[i].kids) ELSE G[i].kids])
      R == ReachFrom(K, {1}, {1})
      rs == SetToSortSeq(R, <)
      edges == StFlat([q \in DOMAIN rs |-> [p \in DOMAIN K[rs[q]] |-> <<K[rs[q]][p], rs[q]>>]])
      drawn == {ev.nodes[q].node : q \in DOMAIN ev.nodes}
      size(i) == StSum([p \in DOMAIN G[i].tensors |-> G[i].tensors[p].size])
  IN StV("drawn_nodes", drawn = R /\ Len(ev.nodes) = Cardinality(R))
     \cup StV("drawn_edges", Bag(ev.edges) = Bag(edges))
     \cup (IF drawn # R THEN {} ELSE
           StV("labels", \A q \in DOMAIN ev.nodes : LET o == ev.nodes[q] n == G[o.node] IN
               o.type = n.type /\ o.D = n.D /\ o.C = n.C /\ o.R = n.R /\ StRg(o.scope) = StRg(n.scope) /\ (size(o.node) >= 1000 \/ o.params = size(o.node))))

-----------------------------------------------------------------------------
(* Temporary replacement of methods: blocks are nested; a call runs the innermost active *)
(* replacement of its method, or the original (0); leaving a block in any way undoes it  *)
ReplaceRun(h) ==
  LET step(s, a) ==
        CASE a.op = "enter" -> [s EXCEPT !.st = Append(s.st, [m |-> a.m, k |-> a.k])]
          [] a.op = "exit" -> [s EXCEPT !.st = SubSeq(s.st, 1, Len(s.st) - a.n)]
          [] a.op = "call" ->
               LET mine == SelectSeq(s.st, LAMBDA b : b.m = a.m)
               IN [s EXCEPT !.seen = Append(s.seen, IF mine = <<>> THEN 0 ELSE mine[Len(mine)].k)]
  IN FoldLeft(step, [st |-> <<>>, seen |-> <<>>], h)
ReplaceClauses(ev) ==
  LET r == ReplaceRun(ev.h)
  IN StV("active_inside_block_only", r.seen = ev.seen)
     \cup StV("not_restored", r.st = <<>> => ev.restored)
===============================================================================
