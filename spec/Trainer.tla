------------------------------- MODULE Trainer -------------------------------
(* The gradient-descent training protocol as a state machine over what can be    *)
(* seen of a run: the loaders that are opened, the optimizer steps, the          *)
(* scheduler steps, the callbacks and the return.  A run r is a record           *)
(*   cfg   what was asked for (epochs, batches nb, validation batches nv, ...)   *)
(*   ep    epochs completed          open  an epoch is under way                 *)
(*   b     steps taken in the epoch  pend  a step whose callback is outstanding  *)
(*   sch   scheduler stepped         v     validation batches reported (-1: not  *)
(*   steps all steps so far                validated in this epoch)              *)
(*   ended the call has returned                                                 *)
(* Clauses name what an event violates; After gives the next state.              *)
EXTENDS Integers, Sequences
Fresh(cfg) == [cfg |-> cfg, ep |-> 0, open |-> FALSE, b |-> 0, pend |-> FALSE, sch |-> FALSE, v |-> -1, steps |-> 0, ended |-> FALSE]
Due(r) == r.cfg.hasval /\ r.ep % 10 = 0            \* validation on the first of every ten epochs
Stepped(r) == r.b = r.cfg.nb /\ ~(r.cfg.bcb /\ r.pend)
Validated(r) == IF Due(r) THEN r.v >= 0 /\ (r.cfg.bcb => r.v = r.cfg.nv) ELSE r.v = -1
Complete(r) == r.open /\ Stepped(r) /\ (r.cfg.sch => r.sch) /\ Validated(r)
(* without an epoch callback nothing marks the end of an epoch but what follows *)
Done(r) == IF r.open THEN Complete(r) /\ ~r.cfg.ecb ELSE TRUE
Epochs(r) == IF r.open /\ ~r.cfg.ecb THEN r.ep + 1 ELSE r.ep
P(name, ok) == IF ok THEN {} ELSE {name}

Protocol(r, k) ==
  CASE k = "iter"  -> P("epoch_incomplete", Done(r)) \cup P("too_many_epochs", Epochs(r) < r.cfg.epochs)
    [] k = "viter" -> P("validation_schedule", r.open /\ Due(r) /\ r.v = -1) \cup P("validation_before_steps", Stepped(r))
    [] k = "step"  -> P("too_many_steps", r.open /\ r.b < r.cfg.nb) \cup P("step_before_callback", ~(r.cfg.bcb /\ r.pend))
                      \cup P("step_after_validation", r.v = -1) \cup P("step_after_scheduler", ~r.sch)
    [] k = "bcb"   -> P("callback_without_batch", r.pend \/ (r.v >= 0 /\ r.v < r.cfg.nv))
    [] k = "sched" -> P("scheduler_twice", r.open /\ ~r.sch) \cup P("scheduler_before_steps", Stepped(r))
    [] k = "ecb"   -> P("epoch_callback_early", Complete(r))
    [] k = "end"   -> P("epochs_missing", Epochs(r) = r.cfg.epochs) \cup P("epoch_incomplete", Done(r))
    [] OTHER -> {}
Close(r) == [r EXCEPT !.ep = @ + 1, !.open = FALSE]
After(r, k) ==
  CASE k = "iter"  -> [(IF r.open THEN Close(r) ELSE r) EXCEPT !.open = TRUE, !.b = 0, !.pend = FALSE, !.sch = FALSE, !.v = -1]
    [] k = "viter" -> [r EXCEPT !.v = 0]
    [] k = "step"  -> [r EXCEPT !.b = @ + 1, !.pend = TRUE, !.steps = @ + 1]
    [] k = "bcb"   -> IF r.pend THEN [r EXCEPT !.pend = FALSE] ELSE [r EXCEPT !.v = @ + 1]
    [] k = "sched" -> [r EXCEPT !.sch = TRUE]
    [] k = "ecb"   -> Close(r)
    [] k = "end"   -> [(IF r.open THEN Close(r) ELSE r) EXCEPT !.ended = TRUE]
    [] OTHER -> r
-----------------------------------------------------------------------------
(* learning rate of epoch e (from 0): the default schedule divides by ten after  *)
(* half and after three quarters of the epochs, never before the first epoch     *)
Later(a) == IF a < 1 THEN 1 ELSE a
DefaultDecays(epochs, e) == (IF e >= Later(epochs \div 2) THEN 1 ELSE 0) + (IF e >= Later((3 * epochs) \div 4) THEN 1 ELSE 0)
==============================================================================
