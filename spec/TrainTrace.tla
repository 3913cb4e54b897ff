------------------------------ MODULE TrainTrace ------------------------------
(* Recorded training runs against the protocol (Trainer), the loss the circuit's *)
(* semantics prescribes (Bayes, Circuit) and the optimizer's update rule.  r is   *)
(* the run under way, mem the optimizer's memory, got the losses reported per     *)
(* epoch, p the parameter vector the specification expects.                       *)
EXTENDS LibTrace, Trainer
VARIABLES r, mem, got, par
NoRun == [cfg |-> [epochs |-> 0, nb |-> 0, nv |-> 0, hasval |-> FALSE, bcb |-> FALSE, ecb |-> FALSE, sch |-> FALSE], none |-> TRUE]
NoMem == [n |-> 0]
(* optimizers live on between runs: one the caller keeps, one of the run itself *)
Slot(cfg) == IF cfg.own THEN "own" ELSE "tmp"

(* losses *)
LogMean(st, m, rows) ==
  LET vals(i) == LET T == Eval(st, m, rows[i]) IN FlattenSeq(TLCEval([q \in DOMAIN T |-> FlattenSeq(T[q])]))
      all == TLCEval(FlattenSeq([i \in DOMAIN rows |-> vals(i)]))
  IN RDiv(RSum([k \in DOMAIN all |-> RLn(all[k])]), RInt(Len(all)))
MeanOver(q) == RDiv(RSum(q), RInt(Len(q)))
LossOf(st, cfg, rows, targets) ==
  IF ~cfg.cls THEN CASE cfg.custom -> RAdd("3", RMul("-2", LogMean(st, cfg.m, rows)))
                     [] OTHER -> RNeg(LogMean(st, cfg.m, rows))
  ELSE LET ps == TLCEval([i \in DOMAIN rows |-> Posterior(st, cfg.root, rows[i])])
           disc == IF cfg.custom THEN RNeg(MeanOver([i \in DOMAIN rows |-> MeanOver([c \in DOMAIN ps[i] |-> RLn(ps[i][c])])]))
                   ELSE RNeg(MeanOver([i \in DOMAIN rows |-> RLn(ps[i][targets[i] + 1])]))
       IN RAdd(disc, RMul(cfg.nllw, RNeg(LogMean(st, cfg.m, rows))))

(* learning rate the schedule prescribes in epoch e *)
Rate(cfg, e) ==
  CASE cfg.sched = "default" -> RDiv(cfg.lr, RPow("10", DefaultDecays(cfg.epochs, e)))
    [] cfg.sched = "step" -> RDiv(cfg.lr, RPow("2", e \div cfg.every))
    [] OTHER -> cfg.lr

(* the optimizers: <<new parameters, new memory>> *)
Zeros(n) == [i \in 1..n |-> Z]
SgdStep(cfg, lr, g, m0, p) ==
  LET m == TLCEval(IF m0.n = 0 THEN g ELSE [i \in DOMAIN g |-> IF g[i] = "nan" THEN "nan" ELSE RAdd(RMul(cfg.mom, m0.m[i]), g[i])])
  IN <<TLCEval([i \in DOMAIN p |-> IF g[i] = "nan" THEN p[i] ELSE RSub(p[i], RMul(lr, m[i]))]), [n |-> m0.n + 1, m |-> m, v |-> <<>>]>>
AdamStep(lr, g, m0, p) ==
  LET n == m0.n + 1
      a == IF m0.n = 0 THEN Zeros(Len(g)) ELSE m0.m
      b == IF m0.n = 0 THEN Zeros(Len(g)) ELSE m0.v
      G(i) == IF g[i] = "nan" THEN Z ELSE g[i]
      m == TLCEval([i \in DOMAIN g |-> RAdd(RMul("0.9", a[i]), RMul("0.1", G(i)))])
      v == TLCEval([i \in DOMAIN g |-> RAdd(RMul("0.999", b[i]), RMul("0.001", RMul(G(i), G(i))))])
      c1 == RSub(One, RPow("0.9", n))
      c2 == RSqrt(RSub(One, RPow("0.999", n)))
  IN <<TLCEval([i \in DOMAIN p |-> IF g[i] = "nan" THEN p[i]
        ELSE RSub(p[i], RDiv(RMul(RDiv(lr, c1), m[i]), RAdd(RDiv(RSqrt(v[i]), c2), "1e-8")))]), [n |-> n, m |-> m, v |-> v]>>
Step(cfg, lr, g, m0, p) == IF cfg.opt = "sgd" THEN SgdStep(cfg, lr, g, m0, p) ELSE AdamStep(lr, g, m0, p)
SameVec(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RClose(a[i], b[i], tol)

Running == ~("none" \in DOMAIN r)
LastOf(q) == IF Len(q) = 0 THEN <<>> ELSE q[Len(q)]
Kinds == {"iter", "viter", "step", "bcb", "sched", "ecb", "end"}
(* the store holds the parameters before the step until its callback has been judged *)
TJudge(ev) ==
  IF ev.e = "start" THEN {}
  ELSE IF ev.e \notin Kinds THEN Judge(ev)
  ELSE IF ~Running THEN {"outside_a_run"}
  ELSE Protocol(r, ev.e) \cup
  CASE ev.e = "iter" -> P("not_training", ev.md) \cup P("parameters_touched", SameVec(ev.par, par, Z))
    [] ev.e = "viter" -> P("parameters_touched", SameVec(ev.par, par, Z))
    [] ev.e = "step" ->
         P("parameters_touched", SameVec(ev.before, par, Z))
         \cup P("gradient", SameVec([i \in DOMAIN ev.g |-> IF ev.g[i] = "nan" THEN "0" ELSE ev.g[i]],
                                    [i \in DOMAIN ev.gref |-> IF ev.gref[i] = "nan" THEN "0" ELSE ev.gref[i]], "1e-7"))
         \cup P("learning_rate", RClose(ev.lr, Rate(r.cfg, r.ep), "1e-12"))
         \cup P("update", SameVec(ev.after, Step(r.cfg, ev.lr, ev.g, mem[Slot(r.cfg)], ev.before)[1], "1e-9"))
    [] ev.e = "bcb" ->
         P("loss", RClose(ev.loss, LossOf(store, r.cfg, ev.rows, ev.targets), "1e-7"))
         \cup P("step_number", ev.n = r.steps)
         \cup P("parameters_touched", SameVec(ev.par, par, Z))
    [] ev.e = "ecb" ->
         P("epoch_number", ev.epoch = r.ep)
         \cup P("epoch_losses", Len(ev.losses) = r.cfg.nb /\ (r.cfg.bcb => ev.losses = LastOf(got)))
         \cup P("parameters_touched", SameVec(ev.par, par, Z))
    [] ev.e = "end" ->
         P("not_training", ev.md) \cup P("parameters_touched", SameVec(ev.par, par, Z))
         \cup P("epoch_losses_changed_later", \A k \in DOMAIN ev.kept : Len(ev.kept[k]) = r.cfg.nb /\ (r.cfg.bcb => ev.kept[k] = got[k]))
    [] OTHER -> {}
TEffect(ev) ==
  CASE ev.e = "start" -> /\ r' = Fresh(ev.cfg) /\ got' = <<>> /\ par' = ev.par /\ store' = store
                         /\ mem' = IF ev.cfg.same THEN mem ELSE [mem EXCEPT ![Slot(ev.cfg)] = NoMem]
    [] ev.e \in Kinds ->
         /\ r' = IF Running THEN After(r, ev.e) ELSE r
         /\ mem' = IF ev.e = "step" /\ Running THEN [mem EXCEPT ![Slot(r.cfg)] = Step(r.cfg, ev.lr, ev.g, @, ev.before)[2]] ELSE mem
         /\ par' = IF ev.e = "step" THEN ev.after ELSE par
         /\ got' = CASE ev.e = "iter" -> Append(got, <<>>)
                     [] ev.e = "bcb" /\ Running /\ r.pend /\ Len(got) > 0 -> [got EXCEPT ![Len(got)] = Append(@, ev.loss)]
                     [] OTHER -> got
         /\ store' = store
    [] OTHER -> Effect(ev) /\ UNCHANGED <<r, mem, got, par>>
TrInit == TraceInit /\ r = NoRun /\ mem = [own |-> NoMem, tmp |-> NoMem] /\ got = <<>> /\ par = <<>>
TrNext ==
  /\ l <= Len(Traces[t])
  /\ LET ev == Traces[t][l] IN
     /\ \A c \in TJudge(ev) : PrintT("FAIL|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o c)
     /\ TEffect(ev)
  /\ (l = Len(Traces[t]) => PrintT("DONE|" \o ToString(t)))
  /\ l' = l + 1 /\ t' = t
TrSpec == TrInit /\ [][TrNext]_<<t, l, store, r, mem, got, par>>
===============================================================================
