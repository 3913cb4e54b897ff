-------------------------------- MODULE Cache --------------------------------
(* Memoisation of module methods.  A cache maps (method, module) to the value  *)
(* computed first; a decorated method computes the children it needs under the *)
(* same cache.  Modules 1..NM form a DAG (Kids); the plain value of a module   *)
(* is its own number plus the values of its children.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

None == "none"
EmptyMem == <<>>           \* function with empty domain
Keys(mem) == DOMAIN mem
Lookup(mem, k) == IF k \in DOMAIN mem THEN mem[k] ELSE None
Put(mem, k, v) == [q \in DOMAIN mem \cup {k} |-> IF q = k THEN v ELSE mem[q]]
DropMod(mem, m) == [q \in {p \in DOMAIN mem : p[2] # m} |-> mem[q]]
EntriesOf(mem, meth) == {k[2] : k \in {p \in DOMAIN mem : p[1] = meth}}

(* calling a decorated method: memo first, then children left to right, then store *)
RECURSIVE Run(_, _, _, _, _)
Run(mem, meth, m, kids, own) ==
  IF <<meth, m>> \in DOMAIN mem THEN [mem |-> mem, val |-> mem[<<meth, m>>], log |-> <<>>]
  ELSE LET r == FoldLeft(LAMBDA acc, c : LET q == Run(acc.mem, meth, c, kids, own)
                                         IN [mem |-> q.mem, val |-> acc.val + q.val, log |-> acc.log \o q.log],
                         [mem |-> mem, val |-> own[m], log |-> <<>>], kids[m])
       IN [mem |-> Put(r.mem, <<meth, m>>, r.val), val |-> r.val, log |-> Append(r.log, m)]
(* the value without any memo *)
RECURSIVE Plain(_, _, _)
Plain(m, kids, own) == FoldLeft(LAMBDA a, c : a + Plain(c, kids, own), own[m], kids[m])
==============================================================================
