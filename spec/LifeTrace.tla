------------------------------- MODULE LifeTrace ------------------------------
(* Life cycle of models of any architecture.  A model is its parameter content;  *)
(* content is an abstract value: copying, saving and loading, and restoring a    *)
(* state dictionary hand it on, a parameter update creates a new one.  What a    *)
(* model answers to a probe (data set, evaluation or sampling with a fixed seed, *)
(* mode, structure report) is a function of its content alone, and distinct      *)
(* models do not share content.                                                  *)
EXTENDS Integers, Sequences, RealNum, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, content, flag, known, next
vars == <<t, l, content, flag, known, next>>
Has(ev, f) == f \in DOMAIN ev
V(name, ok) == IF ok THEN {} ELSE {name}
Near(x, y) == x = y \/ (x \notin {"nan", "inf", "-inf"} /\ y \notin {"nan", "inf", "-inf"} /\ RClose(x, y, "1e-9"))
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i])
Ans(c, p) == {k \in known : k.c = c /\ k.p = p}
Judge(ev) ==
  CASE ev.e \in {"new", "copy", "step", "load", "mode"} -> {}
    [] ev.e = "ask" -> V("depends_on_history", \A k \in Ans(content[ev.m], ev.p) : Same(k.a, ev.a))
    [] ev.e = "flag" -> V("mode_not_kept", ev.a = flag[ev.m])
    [] ev.e = "raise" -> {"unexpected_exception"}
    [] OTHER -> {"unknown_event"}
Effect(ev) ==
  CASE ev.e = "new" -> content' = Append(content, next) /\ next' = next + 1 /\ flag' = Append(flag, TRUE) /\ known' = known
    [] ev.e = "copy" -> content' = Append(content, content[ev.m]) /\ flag' = Append(flag, flag[ev.m]) /\ UNCHANGED <<known, next>>
    [] ev.e = "step" -> content' = [content EXCEPT ![ev.m] = next] /\ next' = next + 1 /\ UNCHANGED <<known, flag>>
    [] ev.e = "load" -> content' = [content EXCEPT ![ev.m] = content[ev.src]] /\ UNCHANGED <<known, next, flag>>
    [] ev.e = "mode" -> flag' = [flag EXCEPT ![ev.m] = ev.a] /\ UNCHANGED <<content, known, next>>
    [] ev.e = "ask" -> known' = known \cup {[c |-> content[ev.m], p |-> ev.p, a |-> ev.a]} /\ UNCHANGED <<content, next, flag>>
    [] OTHER -> UNCHANGED <<content, known, next, flag>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ content = <<>> /\ known = {} /\ next = 1 /\ flag = <<>>
TraceNext ==
  /\ l <= Len(Traces[t])
  /\ LET ev == Traces[t][l] IN
     /\ \A c \in Judge(ev) : PrintT("FAIL|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o c)
     /\ Effect(ev)
  /\ (l = Len(Traces[t]) => PrintT("DONE|" \o ToString(t)))
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
===============================================================================
