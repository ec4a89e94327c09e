------------------------------- MODULE Tensor -------------------------------
(* Tensors [sh |-> shape, d |-> elements in C order] with the broadcasting of *)
(* the array language that models are written in.                             *)
EXTENDS Integers, Sequences, Num

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

T0(x) == [sh |-> <<>>, d |-> <<x>>]
T1(s) == [sh |-> <<Len(s)>>, d |-> s]
IMax(a, b) == IF a < b THEN b ELSE a

\* dimension i (of r) of the shape sh, aligned on the right
Dim(sh, r, i) == IF i <= r - Len(sh) THEN 1 ELSE sh[i - (r - Len(sh))]
BSh(s1, s2) == LET r == IMax(Len(s1), Len(s2))
               IN [i \in 1..r |-> LET a == Dim(s1, r, i) IN IF a = 1 THEN Dim(s2, r, i) ELSE a]
BOk(s1, s2) == LET r == IMax(Len(s1), Len(s2))
               IN \A i \in 1..r : LET a == Dim(s1, r, i) b == Dim(s2, r, i) IN a = 1 \/ b = 1 \/ a = b
\* ts can be broadcast to sh
BTo(ts, sh) == Len(ts) <= Len(sh) /\ BOk(ts, sh) /\ BSh(ts, sh) = sh

RECURSIVE BOff(_, _, _, _, _)
BOff(ts, sh, i, k, stride) ==
  IF i = 0 THEN 0
  ELSE LET d == Dim(ts, Len(sh), i)
       IN (IF d = 1 THEN 0 ELSE (k % sh[i]) * stride) + BOff(ts, sh, i - 1, k \div sh[i], stride * d)
\* element k (from 0) of t broadcast to the shape sh
BGet(t, sh, k) == IF t.sh = sh THEN t.d[k + 1] ELSE t.d[1 + BOff(t.sh, sh, Len(sh), k, 1)]

Map1(F(_), t) == [sh |-> t.sh, d |-> NSeq([k \in 1..Len(t.d) |-> F(t.d[k])])]
Map2(F(_, _), a, b) ==
  LET sh == NSeq(BSh(a.sh, b.sh))
  IN [sh |-> sh, d |-> NSeq([k \in 1..Prod(sh) |-> F(BGet(a, sh, k - 1), BGet(b, sh, k - 1))])]
BTensor(t, sh) == [sh |-> sh, d |-> NSeq([k \in 1..Prod(sh) |-> BGet(t, sh, k - 1)])]
TSum(t) == T0(NSum(t.d))

\* matrix and vector products
Row(t, i) == LET n == t.sh[2] IN [j \in 1..n |-> t.d[(i - 1) * n + j]]
Col(t, j) == LET n == t.sh[2] IN [i \in 1..t.sh[1] |-> t.d[(i - 1) * n + j]]
Dot(a, b) ==
  CASE Len(a.sh) = 1 /\ Len(b.sh) = 1 -> T0(NDotP(a.d, b.d))
    [] Len(a.sh) = 2 /\ Len(b.sh) = 1 -> T1(NSeq([i \in 1..a.sh[1] |-> NDotP(Row(a, i), b.d)]))
    [] Len(a.sh) = 1 /\ Len(b.sh) = 2 -> T1(NSeq([j \in 1..b.sh[2] |-> NDotP(a.d, Col(b, j))]))
    [] OTHER -> [sh |-> <<a.sh[1], b.sh[2]>>,
                 d |-> NSeq([k \in 1..(a.sh[1] * b.sh[2]) |->
                         NDotP(Row(a, 1 + ((k - 1) \div b.sh[2])), Col(b, 1 + ((k - 1) % b.sh[2])))])]
\* The transposition and broadcasting of dimensions: order is a sequence of dimensions
\* of t (from 0) or -1, for a new dimension of length one.
RECURSIVE Strides(_)
Strides(sh) == IF sh = <<>> THEN <<>> ELSE <<Prod(Tail(sh))>> \o Strides(Tail(sh))
RECURSIVE DSOff(_, _, _, _, _)
DSOff(st, ord, sh, i, k) ==
  IF i = 0 THEN 0
  ELSE (IF ord[i] < 0 THEN 0 ELSE (k % sh[i]) * st[ord[i] + 1]) + DSOff(st, ord, sh, i - 1, k \div sh[i])
DimShuffle(t, ord) ==
  LET sh == NSeq([i \in 1..Len(ord) |-> IF ord[i] < 0 THEN 1 ELSE t.sh[ord[i] + 1]])
  IN [sh |-> sh, d |-> NSeq([k \in 1..Prod(sh) |-> t.d[1 + DSOff(Strides(t.sh), ord, sh, Len(sh), k - 1)]])]
TClose(a, b, rtol, atol) == a.sh = b.sh /\ \A k \in 1..Len(a.d) : NClose(a.d[k], b.d[k], rtol, atol)
TEq(a, b) == a.sh = b.sh /\ \A k \in 1..Len(a.d) : NEq(a.d[k], b.d[k])
TFinite(a) == \A k \in 1..Len(a.d) : NFinite(a.d[k])
=============================================================================
