------------------------------ MODULE RoutingCtx ------------------------------
(* Routing state of a sampling pass: per row and feature the selected channel   *)
(* (an index, or in differentiable mode a vector over channels), an activity    *)
(* mask, and per row the selected repetition.  Every operation is a function    *)
(* [ok, st, out]: accepted or refused, next state, returned value.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, RealNum

Mat(b, f, E(_, _)) == TLCEval([i \in 1..b |-> TLCEval([j \in 1..f |-> E(i, j)])])
B(s) == Len(s.ci)
W(s) == Len(s.ci[1])
WM(s) == Len(s.mask[1])
NCh(s) == Len(s.ci[1][1])                 \* differentiable only
NRep(s) == Len(s.rep[1])                  \* differentiable only
Consistent(s) == Len(s.mask) = B(s) /\ Len(s.rep) = B(s) /\ W(s) = WM(s)
Yes(s) == [ok |-> TRUE, st |-> s, out |-> <<>>]
Ret(s, o) == [ok |-> TRUE, st |-> s, out |-> o]
No(s) == [ok |-> FALSE, st |-> s, out |-> <<>>]
Absent == [dt |-> "none", dev |-> "cpu", shape |-> <<>>, v |-> <<>>]
IsNone(a) == a.dt = "none"

CiArg(d, a) == IF d THEN a.dt = "float" /\ Len(a.shape) = 3 ELSE a.dt = "int" /\ Len(a.shape) = 2
MaskArg(a) == a.dt = "bool" /\ Len(a.shape) = 2
RepArg(d, a, b) == /\ IF d THEN a.dt = "float" /\ Len(a.shape) = 2
                      ELSE a.dt = "int" /\ (Len(a.shape) = 1 \/ (Len(a.shape) = 2 /\ a.shape[2] = 1))
                   /\ a.shape[1] = b
RepVal(d, a) == IF ~d /\ Len(a.shape) = 2 THEN [i \in DOMAIN a.v |-> a.v[i][1]] ELSE a.v
Together(d, ci, mask) == CiArg(d, ci) /\ MaskArg(mask) /\ mask.shape = SubSeq(ci.shape, 1, 2)
DefMask(ci) == Mat(ci.shape[1], ci.shape[2], LAMBDA i, j : TRUE)
DefRep(d, b) == [i \in 1..b |-> IF d THEN <<"1">> ELSE 0]
Cpu(as) == \A i \in DOMAIN as : as[i].dev = "cpu"
NoState == [diff |-> FALSE, ci |-> <<>>, mask |-> <<>>, rep |-> <<>>]

New(d, n, ci, mask, rep, tau) ==
  IF ~RLt("0", tau) THEN No(NoState)
  ELSE IF n # -1
  THEN IF IsNone(ci) /\ IsNone(mask) /\ IsNone(rep)
       THEN Yes([diff |-> d, ci |-> Mat(n, 1, LAMBDA i, j : IF d THEN <<"1">> ELSE 0), mask |-> Mat(n, 1, LAMBDA i, j : TRUE),
                 rep |-> DefRep(d, n)])
       ELSE No(NoState)
  ELSE IF IsNone(ci) \/ ~CiArg(d, ci) \/ ~Cpu(<<ci, mask, rep>>) THEN No(NoState)
  ELSE IF ~IsNone(mask) /\ ~Together(d, ci, mask) THEN No(NoState)
  ELSE IF ~IsNone(rep) /\ ~RepArg(d, rep, ci.shape[1]) THEN No(NoState)
  ELSE Yes([diff |-> d, ci |-> ci.v, mask |-> IF IsNone(mask) THEN DefMask(ci) ELSE mask.v,
            rep |-> IF IsNone(rep) THEN DefRep(d, ci.shape[1]) ELSE RepVal(d, rep)])

Update(s, ci, mask, rep) ==
  IF ~Together(s.diff, ci, mask) \/ ~Cpu(<<ci, mask, rep>>) THEN No(s)
  ELSE IF IF IsNone(rep) THEN Len(s.rep) # ci.shape[1] ELSE ~RepArg(s.diff, rep, ci.shape[1]) THEN No(s)
  ELSE Yes([s EXCEPT !.ci = ci.v, !.mask = mask.v, !.rep = IF IsNone(rep) THEN @ ELSE RepVal(s.diff, rep)])
SetCi(s, ci) == IF CiArg(s.diff, ci) /\ ci.dev = "cpu" /\ ci.shape[1] = B(s) THEN Yes([s EXCEPT !.ci = ci.v]) ELSE No(s)
SetMask(s, m) == IF MaskArg(m) /\ m.dev = "cpu" /\ m.shape[1] = B(s) THEN Yes([s EXCEPT !.mask = m.v]) ELSE No(s)
SetRep(s, r) == IF ~IsNone(r) /\ r.dev = "cpu" /\ RepArg(s.diff, r, B(s)) THEN Yes([s EXCEPT !.rep = RepVal(s.diff, r)]) ELSE No(s)
Strict(s, ci) == IF CiArg(s.diff, ci) /\ ci.dev = "cpu" /\ ci.shape[1] = Len(s.mask) /\ ci.shape[2] = WM(s)
                 THEN Yes([s EXCEPT !.ci = ci.v]) ELSE No(s)
Copy(s) == IF Consistent(s) THEN Ret(s, s) ELSE No(s)
WithRouting(s, ci, mask) ==
  IF Together(s.diff, ci, mask) /\ Cpu(<<ci, mask>>) /\ ci.shape[1] = Len(s.rep) THEN Ret(s, [s EXCEPT !.ci = ci.v, !.mask = mask.v]) ELSE No(s)
ShareRep(s, n) == Yes(IF n # 1 THEN s ELSE [s EXCEPT !.rep = [i \in DOMAIN @ |-> IF s.diff THEN <<"1">> ELSE 0]])
ShareChan(s) == Yes([s EXCEPT !.ci = Mat(B(s), W(s), LAMBDA i, j : IF s.diff THEN <<"1">> ELSE 0)])
Require(s, k) == IF W(s) = k THEN Yes(s) ELSE No(s)
Broadcast(s, k, allow) ==
  IF W(s) = k THEN Yes(s)
  ELSE IF allow /\ W(s) = 1 THEN Yes([s EXCEPT !.ci = Mat(B(s), k, LAMBDA i, j : s.ci[i][1]), !.mask = Mat(B(s), k, LAMBDA i, j : s.mask[i][1])])
  ELSE No(s)
RepeatSplit(s, n, k) ==
  IF n < 1 THEN No(s)
  ELSE IF W(s) = k THEN Yes(s)
  ELSE IF k % n # 0 \/ W(s) # k \div n THEN No(s)
  ELSE LET w == W(s) IN Yes([s EXCEPT !.ci = Mat(B(s), k, LAMBDA i, j : s.ci[i][((j - 1) % w) + 1]),
                                      !.mask = Mat(B(s), k, LAMBDA i, j : s.mask[i][((j - 1) % w) + 1])])
Flat(gs) == FoldLeft(LAMBDA a, g : a \o g, <<>>, gs)
Scatter(s, gs, k) ==
  IF W(s) = k THEN Yes(s)
  ELSE IF Len(Flat(gs)) # k \/ ToSet(Flat(gs)) # 0..(k - 1) \/ \E g \in DOMAIN gs : Len(gs[g]) # W(s) THEN No(s)
  ELSE LET pos(j) == CHOOSE p \in 1..W(s) : \E g \in DOMAIN gs : gs[g][p] = j - 1 IN
       Yes([s EXCEPT !.ci = Mat(B(s), k, LAMBDA i, j : s.ci[i][pos(j)]), !.mask = Mat(B(s), k, LAMBDA i, j : s.mask[i][pos(j)])])
Slice(s, rs) ==
  IF \E q \in DOMAIN rs : rs[q][1] < 0 \/ rs[q][2] < rs[q][1] \/ rs[q][2] > W(s) THEN No(s)
  ELSE Ret(s, [q \in DOMAIN rs |-> [ci |-> [i \in 1..B(s) |-> SubSeq(s.ci[i], rs[q][1] + 1, rs[q][2])],
                                    mask |-> [i \in 1..B(s) |-> SubSeq(s.mask[i], rs[q][1] + 1, rs[q][2])]]])
Tot(cs) == FoldLeft(LAMBDA a, c : a + c, 0, cs)
Start(cs, q) == Tot(SubSeq(cs, 1, q - 1))
Route(s, cs) ==
  IF \E q \in DOMAIN cs : cs[q] < 1 THEN No(s)
  ELSE IF ~s.diff
  THEN IF \E i \in 1..B(s) : \E j \in 1..W(s) : s.mask[i][j] /\ (s.ci[i][j] < 0 \/ s.ci[i][j] >= Tot(cs)) THEN No(s)
       ELSE Ret(s, [q \in DOMAIN cs |->
              LET a == Start(cs, q)  mine(i, j) == s.ci[i][j] >= a /\ s.ci[i][j] < a + cs[q] IN
              [ci |-> Mat(B(s), W(s), LAMBDA i, j : IF mine(i, j) THEN s.ci[i][j] - a ELSE 0),
               mask |-> Mat(B(s), W(s), LAMBDA i, j : mine(i, j) /\ s.mask[i][j])]])
  ELSE IF NCh(s) # Tot(cs) THEN No(s)
  ELSE Ret(s, [q \in DOMAIN cs |->
         LET part(i, j) == SubSeq(s.ci[i][j], Start(cs, q) + 1, Start(cs, q) + cs[q])
             mass(i, j) == RSum(part(i, j)) IN
         [ci |-> Mat(B(s), W(s), LAMBDA i, j : IF RLt("0", mass(i, j)) THEN [c \in 1..cs[q] |-> RDiv(part(i, j)[c], mass(i, j))]
                                               ELSE [c \in 1..cs[q] |-> "0"]),
          mask |-> Mat(B(s), W(s), LAMBDA i, j : RLt("0", mass(i, j)) /\ s.mask[i][j])]])
(* -1 stands for "not asked for" *)
Valid(s, n, f, c, r, widths) ==
  /\ Len(s.mask) = B(s) /\ W(s) = WM(s)
  /\ n # -1 => B(s) = n
  /\ IF widths # <<>> THEN W(s) \in ToSet(widths) ELSE (f # -1 => W(s) = f)
  /\ c # -1 => c >= 1 /\ (IF s.diff THEN NCh(s) = c
                          ELSE \A i \in 1..B(s) : \A j \in 1..W(s) : s.mask[i][j] => s.ci[i][j] >= 0 /\ s.ci[i][j] < c)
  /\ r # -1 => r >= 1 /\ Len(s.rep) = B(s) /\ (IF s.diff THEN NRep(s) = r ELSE \A i \in DOMAIN s.rep : s.rep[i] >= 0 /\ s.rep[i] < r)
Validate(s, n, f, c, r, widths) == IF Valid(s, n, f, c, r, widths) THEN Yes(s) ELSE No(s)
ActiveRows(s) == [i \in 1..Len(s.mask) |-> \E j \in 1..WM(s) : s.mask[i][j]]
===============================================================================
