-------------------------------- MODULE ImageMC ------------------------------
(* The view algebra itself: a view is a bijection between pixels and          *)
(* variables, stays one under removals, and removals compose to the removal   *)
(* of the union, whatever the order.                                          *)
EXTENDS ImageView
CONSTANTS MaxC, MaxH, MaxW
VARIABLES size, vs, orig, goneC, goneH, goneW, liveC, liveH, liveW
vars == <<size, vs, orig, goneC, goneH, goneW, liveC, liveH, liveW>>

Iota0(n) == [k \in 1..n |-> k - 1]
Init == /\ orig \in (1..MaxC) \X (1..MaxH) \X (1..MaxW)
        /\ size = orig
        /\ vs = Iota0(orig[1] * orig[2] * orig[3])
        /\ goneC = {} /\ goneH = {} /\ goneW = {}
        /\ liveC = Iota0(orig[1]) /\ liveH = Iota0(orig[2]) /\ liveW = Iota0(orig[3])
Drop(live, xs) == LET keep == {k \in DOMAIN live : k - 1 \notin xs} IN SelectSeq(live, LAMBDA v : \E k \in keep : live[k] = v)
Out(live, xs) == {live[k] : k \in {j \in DOMAIN live : j - 1 \in xs}}
Remove(cs, hs, ws) ==
  /\ NewSize(size, cs, hs, ws)[1] > 0 /\ NewSize(size, cs, hs, ws)[2] > 0 /\ NewSize(size, cs, hs, ws)[3] > 0
  /\ size' = NewSize(size, cs, hs, ws) /\ vs' = LeftVars(size, vs, cs, hs, ws)
  /\ goneC' = goneC \cup Out(liveC, cs) /\ goneH' = goneH \cup Out(liveH, hs) /\ goneW' = goneW \cup Out(liveW, ws)
  /\ liveC' = Drop(liveC, cs) /\ liveH' = Drop(liveH, hs) /\ liveW' = Drop(liveW, ws)
  /\ UNCHANGED orig
Next == \E cs \in SUBSET (0..size[1] - 1) : \E hs \in SUBSET (0..size[2] - 1) : \E ws \in SUBSET (0..size[3] - 1) : Remove(cs, hs, ws)
Spec == Init /\ [][Next]_vars

Full == Iota0(orig[1] * orig[2] * orig[3])
Grid == Len(vs) = size[1] * size[2] * size[3]
Ascending == \A i \in 1..Len(vs) - 1 : vs[i] < vs[i + 1]
Bijective == {Pos(size, p) : p \in Pixels(size)} = 1..Len(vs)
(* every pixel of the view is the pixel of the original grid its coordinates name *)
Faithful == \A p \in Pixels(size) : vs[Pos(size, p)] = Pos(orig, <<liveC[p[1] + 1], liveH[p[2] + 1], liveW[p[3] + 1]>>) - 1
Composes == vs = LeftVars(orig, Full, goneC, goneH, goneW) /\ size = NewSize(orig, goneC, goneH, goneW)
RoundTrip == LET img == [c \in 1..size[1] |-> [h \in 1..size[2] |-> [w \in 1..size[3] |-> vs[Pos(size, <<c - 1, h - 1, w - 1>>)]]]]
             IN SizeOk(size, img) /\ Flat(size, img) = vs
=============================================================================
