------------------------------- MODULE CacheGen -------------------------------
(* Histories of cache use: direct gets and sets, decorated calls with and      *)
(* without a cache, parameter changes and module deletions.                    *)
EXTENDS Cache, Json, Randomization
CONSTANTS NM, NC, MaxLen, Exhaustive
VARIABLES mem, own, alive, hist, computed, dirty
vars == <<mem, own, alive, hist, computed, dirty>>
Meths == {"f", "g"}
(* module 1 reads 2 and 3, module 2 reads 3 twice, 4 stands alone *)
(* in simulation one random choice per action, else every choice *)
P(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Kids == <<<<2, 3>>, <<3, 3>>, <<>>, <<>>>>
Init == /\ mem = [c \in 1..NC |-> EmptyMem] /\ own = [m \in 1..NM |-> m] /\ alive = 1..NM
        /\ hist = <<>> /\ computed = [c \in 1..NC |-> [k \in Meths \X (1..NM) |-> 0]] /\ dirty = FALSE
Log(r) == hist' = Append(hist, r)
Get == \E c \in P(1..NC), f \in P(Meths), m \in P(alive) :
  Log([op |-> "get", c |-> c, f |-> f, m |-> m]) /\ UNCHANGED <<mem, own, alive, computed, dirty>>
Set == \E c \in P(1..NC), f \in P(Meths), m \in P(alive), v \in P(50..51) :
  /\ Log([op |-> "set", c |-> c, f |-> f, m |-> m, v |-> v])
  /\ mem' = [mem EXCEPT ![c] = Put(@, <<f, m>>, v)] /\ dirty' = TRUE /\ UNCHANGED <<own, alive, computed>>
Has == \E c \in P(1..NC), f \in P(Meths) : Log([op |-> "has", c |-> c, f |-> f]) /\ UNCHANGED <<mem, own, alive, computed, dirty>>
KeysOf == \E c \in P(1..NC), f \in P(Meths) : Log([op |-> "keys", c |-> c, f |-> f]) /\ UNCHANGED <<mem, own, alive, computed, dirty>>
Call == \E c \in P(1..NC), f \in P(Meths), m \in P(alive) :
  LET r == Run(mem[c], f, m, Kids, own) IN
  /\ Log([op |-> "call", c |-> c, f |-> f, m |-> m])
  /\ mem' = [mem EXCEPT ![c] = r.mem]
  /\ computed' = [computed EXCEPT ![c] = [k \in DOMAIN @ |-> @[k] + Cardinality({i \in DOMAIN r.log : <<f, r.log[i]>> = k})]]
  /\ UNCHANGED <<own, alive, dirty>>
Fresh == \E f \in P(Meths), m \in P(alive) : Log([op |-> "fresh", f |-> f, m |-> m]) /\ UNCHANGED <<mem, own, alive, computed, dirty>>
Change == \E m \in P(alive) :
  /\ Log([op |-> "change", m |-> m]) /\ own' = [own EXCEPT ![m] = @ + 10] /\ dirty' = TRUE /\ UNCHANGED <<mem, alive, computed>>
(* only the unreferenced module can disappear *)
Drop == /\ 4 \in alive /\ Log([op |-> "drop", m |-> 4]) /\ alive' = alive \ {4}
        /\ mem' = [c \in DOMAIN mem |-> DropMod(mem[c], 4)] /\ UNCHANGED <<own, computed, dirty>>
Revive == /\ 4 \notin alive /\ Log([op |-> "revive", m |-> 4]) /\ alive' = alive \cup {4} /\ own' = [own EXCEPT ![4] = 4]
          /\ computed' = [c \in DOMAIN computed |-> [k \in DOMAIN computed[c] |-> IF k[2] = 4 THEN 0 ELSE computed[c][k]]]
          /\ UNCHANGED <<mem, dirty>>
Next == Len(hist) < MaxLen /\ (Get \/ Set \/ Has \/ KeysOf \/ Call \/ Call \/ Fresh \/ Change \/ Drop \/ Revive)
Spec == Init /\ [][Next]_vars
View == <<mem, own, alive, computed, dirty, Len(hist)>>

(* design-level properties *)
ComputedOnce == \A c \in 1..NC : \A k \in Meths \X (1..NM) : computed[c][k] <= 1
(* entries of a cache nobody wrote to by hand, with unchanged parameters, are the plain values *)
Transparent == ~dirty => \A c \in 1..NC : \A k \in DOMAIN mem[c] : mem[c][k] = Plain(k[2], Kids, own)
OnlyLive == \A c \in 1..NC : \A k \in DOMAIN mem[c] : k[2] \in alive
Emit == Len(hist) = MaxLen /\ ~Exhaustive => PrintT("HIST " \o ToJson(hist))
===============================================================================
