------------------------------ MODULE CacheTrace ------------------------------
(* Validates recorded cache histories of the real library against Cache.tla.   *)
EXTENDS Cache, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, mem, own, busy
vars == <<t, l, mem, own, busy>>
V(name, ok) == IF ok THEN {} ELSE {name}
Kids == <<<<2, 3>>, <<3, 3>>, <<>>, <<>>>>
M(c) == IF c \in DOMAIN mem THEN mem[c] ELSE EmptyMem
K(ev) == <<ev.f, ev.m>>
Ran(ev) == Run(M(ev.c), ev.f, ev.m, Kids, own)

Judge(ev) ==
  CASE ev.e = "get" -> V("wrong_entry", ev.res = Lookup(M(ev.c), K(ev)))
    [] ev.e = "set" -> {}
    [] ev.e = "has" -> V("wrong_membership", ev.res = (EntriesOf(M(ev.c), ev.f) # {}))
    [] ev.e = "keys" -> V("wrong_keys", ToSet(ev.res) = EntriesOf(M(ev.c), ev.f) /\ Len(ev.res) = Cardinality(EntriesOf(M(ev.c), ev.f)))
    [] ev.e = "call" -> V("wrong_value", ev.res = Ran(ev).val) \cup V("wrong_computations", ToSet(ev.log) = ToSet(Ran(ev).log))
                        \cup V("computed_twice", Len(ev.log) = Cardinality(ToSet(ev.log)))
    [] ev.e = "fresh" -> V("wrong_value", ev.res = Plain(ev.m, Kids, own)) \cup V("computed_twice", Len(ev.log) = Cardinality(ToSet(ev.log)))
    [] ev.e \in {"change", "drop", "revive"} -> {}
    \* histories of real circuits: values are object identities
    [] ev.e = "begin" -> V("computed_twice", K(ev) \notin DOMAIN M(ev.c)) \cup V("reentered", <<ev.c, ev.f, ev.m>> \notin busy)
    [] ev.e = "end" -> {}
    [] ev.e = "result" -> V("returned_changed", K(ev) \in DOMAIN M(ev.c) => M(ev.c)[K(ev)] = ev.res)
    [] ev.e = "eq" -> V(ev.clause, ev.a = ev.b)
    [] ev.e = "raise" -> {"unexpected_exception"}
    [] OTHER -> {"unknown_event"}

SetMem(c, v) == [q \in DOMAIN mem \cup {c} |-> IF q = c THEN v ELSE mem[q]]
Effect(ev) ==
  /\ mem' = CASE ev.e = "set" -> SetMem(ev.c, Put(M(ev.c), K(ev), ev.v))
              [] ev.e = "call" -> SetMem(ev.c, Ran(ev).mem)
              [] ev.e = "drop" -> [c \in DOMAIN mem |-> DropMod(mem[c], ev.m)]
              [] ev.e \in {"end", "result"} -> IF K(ev) \in DOMAIN M(ev.c) THEN mem ELSE SetMem(ev.c, Put(M(ev.c), K(ev), ev.res))
              [] OTHER -> mem
  /\ own' = CASE ev.e = "change" -> [own EXCEPT ![ev.m] = @ + 10]
              [] ev.e = "revive" -> [own EXCEPT ![ev.m] = ev.m]
              [] OTHER -> own
  /\ busy' = CASE ev.e = "begin" -> busy \cup {<<ev.c, ev.f, ev.m>>}
               [] ev.e = "end" -> busy \ {<<ev.c, ev.f, ev.m>>}
               [] OTHER -> busy

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ mem = EmptyMem /\ own = <<1, 2, 3, 4>> /\ busy = {}
TraceNext ==
  /\ l <= Len(Traces[t])
  /\ LET ev == Traces[t][l] IN
     /\ \A c \in Judge(ev) : PrintT("FAIL|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o c)
     /\ Effect(ev)
  /\ (l = Len(Traces[t]) => PrintT("DONE|" \o ToString(t)))
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
===============================================================================
