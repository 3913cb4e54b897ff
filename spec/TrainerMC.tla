------------------------------ MODULE TrainerMC ------------------------------
(* Exhaustive design check of the protocol: every order of events the clauses of *)
(* Trainer admit, for all small configurations, ends with exactly the requested  *)
(* steps, callbacks, scheduler steps and validations, and can always finish.      *)
EXTENDS Trainer, FiniteSets, TLC
CONSTANTS MaxE, MaxB
VARIABLES r, n
Kinds == {"iter", "viter", "step", "bcb", "sched", "ecb", "end"}
Cfgs == [epochs : 1..MaxE, nb : 0..MaxB, nv : 0..MaxB, hasval : BOOLEAN, bcb : BOOLEAN, ecb : BOOLEAN, sch : {TRUE}]
Possible(k) == /\ (k = "bcb" => r.cfg.bcb) /\ (k = "ecb" => r.cfg.ecb)
Init == \E c \in Cfgs : r = Fresh(c) /\ n = [k \in Kinds |-> 0]
Next == /\ ~r.ended
        /\ \E k \in Kinds : Possible(k) /\ Protocol(r, k) = {} /\ r' = After(r, k) /\ n' = [n EXCEPT ![k] = @ + 1]
Spec == Init /\ [][Next]_<<r, n>> /\ WF_<<r, n>>(Next)
Vals(e) == IF r.cfg.hasval THEN (e + 9) \div 10 ELSE 0
Exact == r.ended =>
  /\ n["iter"] = r.cfg.epochs /\ n["step"] = r.cfg.epochs * r.cfg.nb /\ n["sched"] = r.cfg.epochs
  /\ n["viter"] = Vals(r.cfg.epochs) /\ n["ecb"] = (IF r.cfg.ecb THEN r.cfg.epochs ELSE 0)
  /\ n["bcb"] = (IF r.cfg.bcb THEN r.cfg.epochs * r.cfg.nb + Vals(r.cfg.epochs) * r.cfg.nv ELSE 0)
Bounded == r.b <= r.cfg.nb /\ r.ep <= r.cfg.epochs /\ r.steps = n["step"]
NoStuck == r.ended \/ ENABLED Next
Finishes == <>(r.ended)
==============================================================================
