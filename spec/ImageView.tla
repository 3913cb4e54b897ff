------------------------------- MODULE ImageView -----------------------------
(* Images as views of rows.  A view lays the variables of a circuit out as a  *)
(* grid of size <<channels, height, width>>; pixel (c, h, w) (from zero) is   *)
(* the variable at position c*H*W + h*W + w of the ascending scope.  Removing *)
(* channels, rows and columns leaves the smaller grid over the variables that *)
(* are left, in the same order.                                               *)
EXTENDS Naturals, Sequences, FiniteSets

Pixels(sz) == (0..sz[1] - 1) \X (0..sz[2] - 1) \X (0..sz[3] - 1)
Pos(sz, p) == p[1] * sz[2] * sz[3] + p[2] * sz[3] + p[3] + 1
(* the row-major sequence of an image given as nested tuples *)
Flat(sz, img) == [k \in 1..(sz[1] * sz[2] * sz[3]) |->
                    LET j == k - 1 IN img[(j \div (sz[2] * sz[3])) + 1][((j \div sz[3]) % sz[2]) + 1][(j % sz[3]) + 1]]
SizeOk(sz, img) == /\ Len(img) = sz[1]
                   /\ \A c \in DOMAIN img : Len(img[c]) = sz[2] /\ \A h \in DOMAIN img[c] : Len(img[c][h]) = sz[3]
Gone(sz, cs, hs, ws) == {p \in Pixels(sz) : p[1] \in cs \/ p[2] \in hs \/ p[3] \in ws}
GoneVars(sz, vs, cs, hs, ws) == {vs[Pos(sz, p)] : p \in Gone(sz, cs, hs, ws)}
LeftVars(sz, vs, cs, hs, ws) == SelectSeq(vs, LAMBDA v : v \notin GoneVars(sz, vs, cs, hs, ws))
Less(n, xs) == n - Cardinality(xs \cap (0..n - 1))
NewSize(sz, cs, hs, ws) == <<Less(sz[1], cs), Less(sz[2], hs), Less(sz[3], ws)>>
(* the row of nv columns an image of the view stands for: everything else is missing *)
RowOf(sz, vs, nv, img) == LET f == Flat(sz, img) IN
  [v \in 1..nv |-> IF \E k \in DOMAIN vs : vs[k] + 1 = v THEN f[CHOOSE k \in DOMAIN vs : vs[k] + 1 = v] ELSE "nan"]
=============================================================================
