--------------------------------- MODULE Mvn ---------------------------------
(* Multivariate normal samplers, probed: with the standard normals z behind a    *)
(* draw, its result is m + R z.  The law has to be N(A^-1 b, A^-1), i.e.          *)
(*     A m = b   and   A R R' = I.                                                *)
(* What A and b are depends on the sampler (Target).                              *)
EXTENDS Tensor, FiniteSets, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, pc
vars == <<c, pc>>

At(t, i, j) == t.d[(i - 1) * t.sh[2] + j]
\* X' diag(w) X
Gram(X, w) == LET n == X.sh[1] p == X.sh[2] IN
  [i \in 1..p |-> NSeq([j \in 1..p |-> NSum([k \in 1..n |-> NMul(w.d[k], NMul(At(X, k, i), At(X, k, j)))])])]
\* X' diag(w) z
XtWz(X, w, z) == LET n == X.sh[1] p == X.sh[2] IN
  NSeq([i \in 1..p |-> NSum([k \in 1..n |-> NMul(w.d[k], NMul(At(X, k, i), z.d[k]))])])
AddDiag(G, a) == [i \in DOMAIN G |-> NSeq([j \in DOMAIN G |-> IF i = j THEN NAdd(G[i][j], a[i]) ELSE G[i][j]])]
Sqr(x) == NMul(x, x)

Target(cs) == LET in == cs.ins IN
  CASE cs.target = "canonical" ->  \* N(Q^-1 b, Q^-1)
         [A |-> [i \in 1..in.Q.sh[1] |-> NSeq([j \in 1..in.Q.sh[2] |-> At(in.Q, i, j)])], b |-> in.b.d]
    [] cs.target = "structured" -> \* N(L^-1 phi' W t, L^-1), L = diag(A) + phi' W phi
         [A |-> AddDiag(Gram(in.phi, in.omega), in.A.d), b |-> XtWz(in.phi, in.omega, in.t)]
    [] cs.target = "regression" -> \* z ~ N(X beta, W^-1), beta_j ~ N(0, 1 / s_j^2)
         [A |-> AddDiag(Gram(in.X, in.omega), [i \in 1..in.X.sh[2] |-> Sqr(in.s.d[i])]), b |-> XtWz(in.X, in.omega, in.z)]

MatVec(A, x) == NSeq([i \in DOMAIN A |-> NSum([j \in DOMAIN A |-> NMul(A[i][j], x[j])])])
MaxAbs(x) == LET RECURSIVE go(_) go(i) == IF i > Len(x) THEN "0" ELSE NMax(NAbs(x[i]), go(i + 1)) IN go(1)

Errs(cs) ==
  LET t == Target(cs) p == Len(t.b) nz == Len(cs.cols)
      RRt == NSeq([i \in 1..p |-> NSeq([j \in 1..p |-> NSum([k \in 1..nz |-> NMul(cs.cols[k].d[i], cs.cols[k].d[j])])])])
      Am == MatVec(t.A, cs.m.d)
      scale(i) == NAdd(NSum([j \in 1..p |-> NAbs(NMul(t.A[i][j], cs.m.d[j]))]), NAbs(t.b[i]))
      ARR(i, j) == NSum([k \in 1..p |-> NMul(t.A[i][k], RRt[k][j])])
      tolA(i, j) == NMul("1e-8", NAdd("1", NSum([k \in 1..p |-> NAbs(NMul(t.A[i][k], RRt[k][j]))])))
      lin(i) == NAdd(cs.m.d[i], NSum([k \in 1..nz |-> NMul(cs.cols[k].d[i], cs.z[k])]))
  IN IF ~ TFinite(cs.out) THEN {"the draw is not finite"}
     ELSE IF cs.out.sh # <<p>> THEN {"the draw has the wrong shape"}
     ELSE (IF \A i \in 1..p : NClose(Am[i], t.b[i], "0", NMul("1e-7", scale(i))) THEN {} ELSE {"wrong mean"})
     \cup (IF \A i \in 1..p : \A j \in 1..p : NClose(ARR(i, j), IF i = j THEN "1" ELSE "0", "0", tolA(i, j)) THEN {}
           ELSE {"wrong covariance"})
     \cup (IF \A i \in 1..p : NClose(cs.out.d[i], lin(i), "1e-7", "1e-8") THEN {} ELSE {"the draw is not affine in its normals"})

Init == c \in 1..Len(Cases) /\ pc = "check"
Next == /\ pc = "check" /\ pc' = "done" /\ UNCHANGED c
        /\ PrintT("RESULT " \o ToJson([id |-> Cases[c].id, errs |-> Errs(Cases[c]), kfs |-> {}]))
==============================================================================
