--------------------------------- MODULE Dsl ----------------------------------
(* Meaning of circuit expressions.  ast is a sequence of operator applications  *)
(* over earlier entries.  El(st, ast, i) elaborates entry i over the modules of *)
(* st:  k    "value" (a module), "weighted" (a weighted term), "mix" (a sum)    *)
(*      ts   the weighted terms <<weight, module index>> ("value": one term)    *)
(*      ok   "yes", "no" (not a circuit), "may" (the library may refuse it),    *)
(*           "any" (sizes that fit only by broadcasting: no value prescribed)   *)
(*      st   the modules, with those the expression denotes appended.           *)
EXTENDS WellFormed
Worst(a, b) == CASE "no" \in {a, b} -> "no" [] "any" \in {a, b} -> "any" [] "may" \in {a, b} -> "may" [] OTHER -> "yes"
NoNode == [split |-> [kind |-> "none", k |-> 0, idx |-> <<>>]]
ProdN(a, b) == [op |-> "prod", ins |-> <<a, b>>] @@ NoNode
SumN(ts, F, R) ==
  LET tot == RSum([i \in DOMAIN ts |-> ts[i][1]])
      ws == TLCEval([i \in DOMAIN ts |-> RDiv(ts[i][1], tot)])
  IN [op |-> "sum", ins |-> [i \in DOMAIN ts |-> ts[i][2]], w |-> TLCEval([r \in 1..R |-> [f \in 1..F |-> [o \in 1..1 |-> ws]]])] @@ NoNode
(* the module a value or mixture stands for *)
Built(e) ==
  IF e.ok = "no" \/ e.k = "weighted" THEN [ok |-> "no", st |-> e.st, m |-> 0]
  ELSE IF e.k = "value" THEN [ok |-> e.ok, st |-> e.st, m |-> e.ts[1][2]]
  ELSE LET sh == ShapeOf(e.st, e.ts[1][2])
           n == SumN(e.ts, sh[1], sh[3])
           one == \A i \in DOMAIN e.ts : ShapeOf(e.st, e.ts[i][2])[2] = 1
           wf == IF ~one THEN "no" ELSE Wf(e.st, n)
       IN IF wf = "no" THEN [ok |-> "no", st |-> e.st, m |-> 0]
          ELSE [ok |-> Worst(e.ok, wf), st |-> Append(e.st, n), m |-> Len(e.st) + 1]
Bad(st) == [k |-> "value", ts |-> <<>>, ok |-> "no", st |-> st]
Positive(x) == x \notin {"nan", "inf", "-inf"} /\ RLt("0", x)
RECURSIVE El(_, _, _)
El(st, ast, i) ==
  LET h == ast[i] IN
  CASE h.op = "term" -> [k |-> "value", ts |-> <<<<"1", h.m>>>>, ok |-> "yes", st |-> st]
    [] h.op = "scale" ->
         LET e == El(st, ast, h.a) IN
         IF e.ok = "no" \/ ~Positive(h.w) THEN Bad(st)
         ELSE IF e.k = "weighted" THEN [e EXCEPT !.ok = Worst(e.ok, "may"), !.ts = <<<<RMul(e.ts[1][1], h.w), e.ts[1][2]>>>>]
         ELSE LET b == Built(e) IN
              IF b.ok = "no" THEN Bad(st)
              ELSE [k |-> "weighted", ts |-> <<<<h.w, b.m>>>>, ok |-> b.ok, st |-> b.st]
    [] h.op = "add" ->
         LET a == El(st, ast, h.a) IN
         IF a.ok = "no" \/ a.k = "value" THEN Bad(st)
         ELSE LET b == El(a.st, ast, h.b) IN
              IF b.ok = "no" \/ b.k = "value" THEN Bad(st)
              ELSE [k |-> "mix", ts |-> a.ts \o b.ts, ok |-> Worst(a.ok, b.ok), st |-> b.st]
    [] h.op = "mul" ->
         LET a == El(st, ast, h.a) IN
         IF a.ok = "no" THEN Bad(st)
         ELSE LET ba == IF a.k = "weighted" THEN [ok |-> a.ok, st |-> a.st, m |-> a.ts[1][2]] ELSE Built(a) IN
         IF ba.ok = "no" THEN Bad(st)
         ELSE LET b == El(ba.st, ast, h.b) IN
         IF b.ok = "no" THEN Bad(st)
         ELSE LET bb == IF b.k = "weighted" THEN [ok |-> b.ok, st |-> b.st, m |-> b.ts[1][2]] ELSE Built(b)
                  wts == (IF a.k = "weighted" THEN <<a.ts[1][1]>> ELSE <<>>) \o (IF b.k = "weighted" THEN <<b.ts[1][1]>> ELSE <<>>)
                  n == ProdN(ba.m, bb.m)
                  wf == IF bb.ok = "no" THEN "no" ELSE Wf(bb.st, n)
              IN IF wf = "no" THEN Bad(st)
                 ELSE [k |-> IF wts = <<>> THEN "value" ELSE "weighted",
                       ts |-> <<<<IF wts = <<>> THEN "1" ELSE IF Len(wts) = 1 THEN wts[1] ELSE RMul(wts[1], wts[2]), Len(bb.st) + 1>>>>,
                       ok |-> Worst(Worst(wf, Worst(ba.ok, bb.ok)), IF b.k = "weighted" THEN "may" ELSE "yes"),
                       st |-> Append(bb.st, n)]
Denote(st, ast, i) == Built(El(st, ast, i))
================================================================================
