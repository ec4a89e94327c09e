------------------------------- MODULE Kernels -------------------------------
(* What each kind of sampling step has to do.  A step updates the variables vs *)
(* of a model in the environment env (the current values of everything) to the *)
(* values outs, using some of the random draws ds = <<[dist, args, out], ..>>. *)
(* Every operator yields the set of the clauses that do not hold, {} when the  *)
(* step is right.  Draws that no step accounts for are allowed (stuttering).   *)
EXTENDS Model, SequencesExt

Tol == "1e-7"

\* Powers used to move the points at which densities are compared off each other
Mults == <<"0.31", "1", "1.73", "2.9", "0.62", "1.21", "0.47">>
NPts == 5
PtsPos(x, j) == [sh |-> x.sh, d |-> NSeq([i \in 1..Len(x.d) |-> NMul(x.d[i], Mults[1 + ((i * j + j) % 7)])])]
PtsUnit(x, j) == [sh |-> x.sh, d |-> NSeq([i \in 1..Len(x.d) |->
                    NSub("1", NMul(NAdd("0.2", NMul("0.8", NSub("1", x.d[i]))), NDiv(Mults[1 + ((i * j + j) % 7)], "3")))])]
PtsReal(x, j) == [sh |-> x.sh, d |-> NSeq([i \in 1..Len(x.d) |-> NAdd(x.d[i], NSub(Mults[1 + ((i * j + j) % 7)], "1"))])]
Pt(sup, x, j) == IF sup = "pos" THEN PtsPos(x, j) ELSE IF sup = "unit" THEN PtsUnit(x, j) ELSE PtsReal(x, j)

AllClose(s, tol) == \A i \in DOMAIN s : NFinite(s[i]) /\ NClose(s[i], s[1], "1e-10", tol)

---------------------------------------------------------------------------
(* A direct draw from the full conditional: log p(v, rest) - log law(v) does  *)
(* not depend on v.                                                           *)
IsDirect(d, m, v, env, extra(_)) ==
  /\ d.dist \in LawKnown
  /\ DrawShapeOk(d, d.out)
  /\ LET sup == Support(Node(m, v).dist)
         f(j) == LET x == Pt(sup, d.out, j)
                 IN NSub(NAdd(LogBlanket(m, v, [env EXCEPT ![v] = x]), extra(x)), DrawPdf(d, x))
     IN Support(d.dist) = sup /\ AllClose(NSeq([j \in 1..NPts |-> f(j)]), Tol)

\* A gamma (or exponential) draw that is multiplied by something has a gamma law of
\* another scale: the draws in ds as draws of out
Scaled(d, out) ==
  IF d.dist \in {"gamma", "exponential"} /\ d.out.sh = out.sh /\ DrawShapeOk(d, d.out)
     /\ \A k \in DOMAIN out.d : NFinite(out.d[k]) /\ NLt("0", out.d[k]) /\ NLt("0", d.out.d[k])
  THEN LET sc == BTensor(d.args[Len(d.args)], out.sh) IN
       [d EXCEPT !.out = out,
                 !.args[Len(d.args)] = [sh |-> out.sh, d |-> NSeq([k \in DOMAIN out.d |-> NMul(sc.d[k], NDiv(out.d[k], d.out.d[k]))])]]
  ELSE d
Nothing(x) == "0"
Conj(m, v, env, out, ds) ==
  LET cand == {i \in DOMAIN ds : TEq(ds[i].out, out)}
      scaled(i) == LET d == Scaled(ds[i], out) IN TEq(d.out, out) /\ IsDirect(d, m, v, env, Nothing)
  IN IF \E i \in cand : IsDirect(ds[i], m, v, env, Nothing) THEN {}
     ELSE IF \E i \in DOMAIN ds \ cand : scaled(i) THEN {}
     ELSE IF cand = {} THEN {"the new value of " \o v \o " is not a draw"}
     ELSE {"the draw of " \o v \o " is not from its full conditional"}

\* Known finding KF2: beta prior, negative binomial observations, and the posterior
\* Beta(a + y, b + n), with the roles of y and n swapped.
KF2(m, v, env, out, ds) ==
  LET cs == Children(m, v)
  IN /\ Cardinality(cs) = 1 /\ Node(m, v).dist = "beta"
     /\ LET c == Node(m, CHOOSE x \in cs : TRUE) IN
        /\ c.dist = "nbinom" /\ c.args[2] = [op |-> "var", n |-> v] /\ v \notin Vars(c.args[1])
        /\ env[c.name].sh = out.sh
        /\ LET pr == Params(Node(m, v), env) n == Params(c, env)[1] y == env[c.name] IN
           \E i \in DOMAIN ds : /\ TEq(ds[i].out, out) /\ ds[i].dist = "beta"
                                /\ DrawShapeOk(ds[i], out)
                                /\ TClose(BTensor(ds[i].args[1], out.sh), BTensor(Map2(NAdd, pr[1], y), out.sh), "1e-9", "0")
                                /\ TClose(BTensor(ds[i].args[2], out.sh), BTensor(Map2(NAdd, pr[2], n), out.sh), "1e-9", "0")

---------------------------------------------------------------------------
(* Gamma draws in the form (shape, rate, value), whichever way the code drew   *)
(* them: an exponential is a gamma of shape one, and the reciprocal of an      *)
(* inverse gamma is a gamma.                                                   *)
IsG(d) == d.dist \in {"exponential", "gamma", "invgamma"} /\ DrawShapeOk(d, d.out)
One(x) == "1"
Rec(x) == NDiv("1", x)
GShape(d) == CASE d.dist = "exponential" -> Map1(One, d.out)
               [] OTHER -> BTensor(d.args[1], d.out.sh)
GRate(d) == CASE d.dist = "exponential" -> Map1(Rec, BTensor(d.args[1], d.out.sh))
              [] d.dist = "gamma" -> Map1(Rec, BTensor(d.args[2], d.out.sh))
              [] OTHER -> BTensor(d.args[2], d.out.sh)
GVal(d) == IF d.dist = "invgamma" THEN Map1(Rec, d.out) ELSE d.out
GIs(d, shape, rate) ==
  /\ IsG(d)
  /\ Len(d.out.d) = Len(rate.d)
  /\ LET s == GShape(d) r == GRate(d)
     IN \A k \in 1..Len(rate.d) : NClose(s.d[k], shape, "1e-9", "0") /\ NClose(r.d[k], rate.d[k], "1e-9", "0")
\* ... times a scale: g is a gamma value of the rate when its product with the rate is the
\* draw's product with its own.  What the draw gives for a rate:
OfShape(d, shape, n) == IsG(d) /\ Len(d.out.d) = n /\ \A k \in 1..n : NClose(GShape(d).d[k], shape, "1e-9", "0")
GOf(d, rate) == LET r == GRate(d) g == GVal(d) IN NSeq([k \in DOMAIN rate.d |-> NDiv(NMul(r.d[k], g.d[k]), rate.d[k])])
\* x = 1 / sqrt(g)
InvSqrtOf(x, g) == Len(x.d) = Len(g) /\ \A k \in 1..Len(x.d) : NClose(NMul(Sq(x.d[k]), g[k]), "1", "1e-9", "0")

(* The horseshoe: beta_j ~ N(0, s^2 l_j^2 t^2), l_j and t standard half-Cauchy *)
(* (s is one in the models of construct_sampler).                              *)
(* With u | l ~ Exp(1 + 1/l^2) and z | t ~ Exp(1 + 1/t^2),                      *)
(*   1/l_j^2 ~ Exp(u_j + beta_j^2 / (2 s^2 t^2)), and given the new l,          *)
(*   1/t^2   ~ Gamma((p + 1)/2, z + sum_j beta_j^2 / (2 s^2 l_j^2)).            *)
Horseshoe(m, bv, lv, tv, env, lout, tout, ds) ==
  LET beta == env[bv] lam == env[lv] tau == env[tv].d[1] p == Len(beta.d)
      sd == BTensor(Params(Node(m, bv), env)[2], beta.sh)
      \* beta_j / s
      b2 == [sh |-> beta.sh, d |-> NSeq([k \in 1..p |-> Sq(NDiv(NMul(beta.d[k], NMul(lam.d[k], tau)), sd.d[k]))])]
      f1(x) == NAdd("1", NDiv("1", Sq(x)))
      sh == NDiv(NOfInt(p + 1), "2")
      ur == Map1(f1, lam)  zr == T0(f1(tau))
      U == {i \in DOMAIN ds : OfShape(ds[i], "1", p)}
      Z == {i \in DOMAIN ds : OfShape(ds[i], "1", 1)}
      T == {i \in DOMAIN ds : OfShape(ds[i], sh, 1)}
      lrate(u) == T1(NSeq([k \in 1..p |-> NAdd(GOf(ds[u], ur)[k], NDiv(b2.d[k], NMul("2", Sq(tau))))]))
      trate(z) == T0(NAdd(GOf(ds[z], zr)[1], NSum([k \in 1..p |-> NDiv(b2.d[k], NMul("2", Sq(lout.d[k])))])))
  IN IF Len(lam.d) # p \/ Len(lout.d) # p THEN {"there isn't one local parameter for each coefficient"} ELSE
     (IF \E u \in U, l \in U : u # l /\ InvSqrtOf(lout, GOf(ds[l], lrate(u))) THEN {}
      ELSE {"wrong conditional for the local shrinkage parameter " \o lv})
     \cup
     (IF \E z \in Z, t \in T : z # t /\ InvSqrtOf(tout, GOf(ds[t], trate(z))) THEN {}
      ELSE {"wrong conditional for the global shrinkage parameter " \o tv})
     \cup (IF lout.sh = lam.sh /\ tout.sh = env[tv].sh THEN {} ELSE {"the shape of a shrinkage parameter changed"})

---------------------------------------------------------------------------
(* Logistic regressions.  bv only enters the model through the success         *)
(* probabilities p of the observations yv (negative binomial or Bernoulli).    *)
(* With psi = logit p and w_i ~ PG(b_i, psi_i), the conditional of bv given w   *)
(* is proportional to exp(g), where                                            *)
(*   g = log p(bv, rest) + sum_i [b_i log cosh(psi_i / 2) - w_i psi_i^2 / 2],    *)
(* which is quadratic; the step has to draw from that normal distribution.  It *)
(* is probed: with the step's other draws fixed its result is m + R z for       *)
(* standard normals z, so m has to be the mode and R R' the inverse of -Hess.   *)
Logit(p) == NSub(NLog(p), NLog(NSub("1", p)))
ProbArg(nd, env) == Params(nd, env)[Len(nd.args)]
PsiOf(nd, env) == BTensor(Map1(Logit, ProbArg(nd, env)), env[nd.name].sh)
PGB(nd, env) == LET y == env[nd.name] IN
  IF nd.dist = "nbinom" THEN Map2(NAdd, y, BTensor(Params(nd, env)[1], y.sh)) ELSE Map1(One, y)
LogCosh(x) == NSub(NAdd(NAbs(x), NSoftplus(NNeg(NMul("2", NAbs(x))))), Log2)
UnitVec(p, i, s) == T1([k \in 1..p |-> IF k = i THEN s ELSE "0"])
Shift(x, i, s) == [x EXCEPT !.d[i] = NAdd(x.d[i], s)]

Regression(m, bv, yv, env, out, probe, ds) ==
  LET nd == Node(m, yv)
      psi0 == PsiOf(nd, env)  b == PGB(nd, env)  n == Len(psi0.d)  p == Len(out.d)
      isPG(d) == /\ d.dist = "polyagamma" /\ Len(d.out.d) = n /\ DrawShapeOk(d, d.out)
                 /\ LET dh == BTensor(d.args[1], d.out.sh) dz == BTensor(d.args[2], d.out.sh)
                    IN \A k \in 1..n : /\ NClose(dh.d[k], b.d[k], "1e-9", "1e-12")
                                       /\ NClose(NAbs(dz.d[k]), NAbs(psi0.d[k]), "1e-7", "1e-9")
      W == {i \in DOMAIN ds : isPG(ds[i])}
      g(x, w) == LET e == [env EXCEPT ![bv] = x] psi == PsiOf(nd, e)
                 IN NAdd(LogBlanket(m, bv, e),
                         NSum([k \in 1..n |-> NSub(NMul(b.d[k], LogCosh(NMul(Half, psi.d[k]))),
                                                   NMul(Half, NMul(w.d[k], Sq(psi.d[k]))))]))
      mu == probe.m
      nz == Len(probe.cols)
      RRt(i, j) == NSum([k \in 1..nz |-> NMul(probe.cols[k].d[i], probe.cols[k].d[j])])
      okW(w) ==
        LET g0 == g(mu, w)
            gp == NSeq([i \in 1..p |-> g(Shift(mu, i, "1"), w)])
            gm == NSeq([i \in 1..p |-> g(Shift(mu, i, "-1"), w)])
            H == NSeq([i \in 1..p |-> NSeq([j \in 1..p |->
                   IF i = j THEN NSub(NAdd(gp[i], gm[i]), NMul("2", g0))
                   ELSE NAdd(NSub(NSub(g(Shift(Shift(mu, i, "1"), j, "1"), w), gp[i]), gp[j]), g0)])])
            grad(i) == NMul(Half, NSub(gp[i], gm[i]))
            HR(i, j) == NSum([k \in 1..p |-> NMul(H[i][k], RRt(k, j))])
        IN (IF \A i \in 1..p : NLe(NAbs(grad(i)), NMul("1e-6", NAdd("1", NAbs(H[i][i])))) THEN {}
            ELSE {"the mean of the normal draw of " \o bv \o " is wrong"})
           \cup
           (IF \A i \in 1..p : \A j \in 1..p : NClose(HR(i, j), IF i = j THEN "-1" ELSE "0", "0", "1e-5") THEN {}
            ELSE {"the covariance of the normal draw of " \o bv \o " is wrong"})
      lin == \A i \in 1..p : NClose(out.d[i], NAdd(mu.d[i], NSum([k \in 1..nz |-> NMul(probe.cols[k].d[i], probe.z[k])])), "1e-6", "1e-7")
  IN IF W = {} THEN {"no Polya-Gamma draw with the parameters of " \o yv}
     ELSE IF probe.m.sh # out.sh \/ out.sh # env[bv].sh THEN {"the shape of " \o bv \o " changed"}
     ELSE IF ~lin THEN {"the result for " \o bv \o " is not an affine function of normal draws"}
     ELSE IF \E i \in W : okW(ds[i].out) = {} THEN {}
     ELSE okW(ds[CHOOSE i \in W : TRUE].out)

---------------------------------------------------------------------------
(* The dispersion h of negative binomial observations yv, with a gamma prior.  *)
(* l_i ~ CRT(y_i, h): sums of Bernoulli(h / (n - 1 + h)), n = 1..y_i (the first *)
(* of them is certain).  Given them the conditional of h is                    *)
(*   p(h, rest) prod_i h^(l_i) Gamma(h) / Gamma(h + y_i).                       *)
\* A draw of probability p = h / (n - 1 + h) is the one of customer n = 1 + h / p - h
CustomerOf(p, h) == IF NLt("0", p) THEN NRound(NAdd("1", NSub(NDiv(h, p), h))) ELSE "0"
\* [p, o]: the probability and outcome of every Bernoulli draw
\* A draw of a matrix of them, with a column (axis 2) or row (axis 1) for each customer, has
\* some that don't exist: only those up to the number of customers count.
BernElems(ds, y, h, mat) ==
  LET masked(d) == mat # 0 /\ Len(d.out.sh) = 2 /\ d.out.sh[3 - mat] = Len(y.d)
      row(d, k) == IF mat = 2 THEN 1 + ((k - 1) \div d.out.sh[2]) ELSE 1 + ((k - 1) % d.out.sh[2])
      of(d) == IF d.dist = "bernoulli" \/ (d.dist = "binomial" /\ TEq(d.args[1], T0("1")))
               THEN [k \in 1..Len(d.out.d) |-> [p |-> BGet(d.args[Len(d.args)], d.out.sh, k - 1), o |-> d.out.d[k]]]
               ELSE <<>>
      real(d) == LET q == of(d) IN
        IF q = <<>> \/ ~ masked(d) THEN q
        ELSE LET kept == SelectSeq([k \in DOMAIN q |-> k], LAMBDA k : NLe(CustomerOf(q[k].p, h), y.d[row(d, k)]))
             IN [j \in DOMAIN kept |-> q[kept[j]]]
  IN FlattenSeq([i \in 1..Len(ds) |-> real(ds[i])])
Customers(y) == IF NLt(y, "2") THEN <<>> ELSE [n \in 1..(NToInt(y) - 1) |-> NOfInt(n + 1)]
\* The number of tables, or -1 when the Bernoulli draws aren't the CRT's.
CRTTablesOf(y, h, ds, mat) ==
  LET prob(n) == NDiv(h, NAdd(NSub(n, "1"), h))
      E == SelectSeq(BernElems(ds, y, h, mat), LAMBDA e : LET n == CustomerOf(e.p, h) IN NLe("2", n) /\ NClose(e.p, prob(n), "1e-9", "0"))
      want == NSort(FlattenSeq([k \in 1..Len(y.d) |-> Customers(y.d[k])]))
      have == NSort(NSeq([i \in 1..Len(E) |-> CustomerOf(E[i].p, h)]))
  IN IF have = want THEN NToInt(NSum([i \in 1..Len(E) |-> E[i].o])) + Len(SelectSeq(y.d, LAMBDA x : NLe("1", x))) ELSE -1
CRTTables(y, h, ds) ==
  LET L == CRTTablesOf(y, h, ds, 0) IN
  IF L >= 0 \/ ~ \E i \in DOMAIN ds : ds[i].dist \in {"bernoulli", "binomial"} /\ Len(ds[i].out.sh) = 2 THEN L
  ELSE LET M == CRTTablesOf(y, h, ds, 2) IN IF M >= 0 THEN M ELSE CRTTablesOf(y, h, ds, 1)

Dispersion(m, hv, yv, env, out, ds) ==
  LET y == env[yv] h == env[hv].d[1]
      L == CRTTables(y, h, ds)
      extra(x) == NAdd(NMul(NOfInt(L), NLog(x.d[1])),
                       NSum([k \in 1..Len(y.d) |-> NSub(NLgamma(x.d[1]), NLgamma(NAdd(x.d[1], y.d[k])))]))
      cand == {i \in DOMAIN ds : TEq(ds[i].out, out)}
      scaled(i) == LET d == Scaled(ds[i], out) IN TEq(d.out, out) /\ IsDirect(d, m, hv, env, extra)
  IN IF L < 0 THEN {"the Bernoulli draws are not those of CRT(" \o yv \o ", " \o hv \o ")"}
     ELSE IF \E i \in cand : IsDirect(ds[i], m, hv, env, extra) THEN {}
     ELSE IF \E i \in DOMAIN ds \ cand : scaled(i) THEN {}
     ELSE IF cand = {} THEN {"the new value of " \o hv \o " is not a draw"}
     ELSE {"the draw of " \o hv \o " is not from its conditional given the CRT draws"}

\* Known finding KF1: the rate of the gamma draw is 1/scale - sum log(1 - p), with p the
\* success probability of the observations, instead of 1/scale - sum log p.
KF1(m, hv, yv, env, out, ds) ==
  LET y == env[yv] h == env[hv].d[1] L == CRTTables(y, h, ds)
      pr == Params(Node(m, hv), env)
      lq(x) == NLog(NSub("1", x))
      q == BTensor(Map1(lq, ProbArg(Node(m, yv), env)), y.sh)
  IN /\ L >= 0 /\ Node(m, hv).dist = "gamma" /\ hv \notin Vars(Node(m, yv).args[2])
     /\ \E i \in DOMAIN ds : LET d == Scaled(ds[i], out) IN
                             /\ TEq(d.out, out)
                             /\ GIs(d, NAdd(pr[1].d[1], NOfInt(L)), T0(NSub(pr[2].d[1], NSum(q.d))))

---------------------------------------------------------------------------
(* A CRT sample on its own: out_i tables for y_i customers.                    *)
Crt(y, h, out, ds) ==
  LET L == CRTTables(y, h, ds)
      \* the draws and the elements that have any
      bs == SelectSeq(ds, LAMBDA d : d.dist = "bernoulli" /\ Len(d.out.d) > 0)
      es == SelectSeq([i \in DOMAIN y.d |-> i], LAMBDA i : NLe("2", y.d[i]))
      own == Len(bs) = Len(es) /\ \A j \in DOMAIN es : NEq(NOfInt(Len(bs[j].out.d) + 1), y.d[es[j]])
      pos(x) == IF NLe("1", x) THEN "1" ELSE "0"
      mat == Len(bs) = 1 /\ bs[1].out.sh[1] = Len(y.d) /\ Len(bs[1].out.sh) = 2 /\ CRTTablesOf(y, h, ds, 0) < 0
      nc == bs[1].out.sh[2]
      rowOf(i) == LET at(j) == (i - 1) * nc + j
                      n(j) == CustomerOf(BGet(bs[1].args[Len(bs[1].args)], bs[1].out.sh, at(j) - 1), h)
                  IN NSeq([j \in 1..nc |-> IF NLe("2", n(j)) /\ NLe(n(j), y.d[i]) THEN bs[1].out.d[at(j)] ELSE "0"])
  IN IF L < 0 THEN {"the Bernoulli draws are not those of the CRT"}
     ELSE IF out.sh # y.sh THEN {"the shape of the CRT sample is wrong"}
     ELSE IF ~ NEq(NSum(out.d), NOfInt(L)) THEN {"the number of tables is not the number of successes"}
     ELSE IF \E i \in DOMAIN y.d : NLt(out.d[i], pos(y.d[i])) \/ NLt(y.d[i], out.d[i]) THEN {"an impossible number of tables"}
     \* one vector of draws for each element: they have to be its own
     ELSE IF own /\ \E j \in DOMAIN es : ~ NEq(out.d[es[j]], NAdd("1", NSum(bs[j].out.d)))
          THEN {"the tables of an element are not the successes of its draws"}
     \* one row of draws for each element
     ELSE IF mat /\ \E i \in DOMAIN y.d : ~ NEq(out.d[i], NAdd(pos(y.d[i]), NSum(rowOf(i))))
          THEN {"the tables of an element are not the successes of its draws"}
     ELSE IF \E i \in DOMAIN y.d : NLt(y.d[i], "2") /\ ~ NEq(out.d[i], pos(y.d[i])) THEN {"the tables of an element with one customer are wrong"} ELSE {}

---------------------------------------------------------------------------
(* NUTS.  The step works on the concatenation q of the variables vs, each      *)
(* mapped to the real line; probe = [q0, lf0, q1, lf1] are the position it      *)
(* starts from, the one it moves to, and its log density at both.              *)
Limits(m, v, env) == LET ps == Params(Node(m, v), env) sh == env[v].sh IN <<BTensor(ps[1], sh), BTensor(ps[Len(ps)], sh)>>
\* logarithms relative to their mean, without the last one, for each row of a simplex
SimplexFwd(x) ==
  LET n == LastOf(x.sh) rows == Len(x.d) \div n
      l(r) == NSeq([j \in 1..n |-> NLog(x.d[(r - 1) * n + j])])
      mean(r) == NDiv(NSum(l(r)), NOfInt(n))
  IN [sh |-> SubSeq(x.sh, 1, Len(x.sh) - 1) \o <<n - 1>>,
      d |-> NSeq([k \in 1..(rows * (n - 1)) |-> LET r == 1 + ((k - 1) \div (n - 1)) j == 1 + ((k - 1) % (n - 1)) IN NSub(l(r)[j], mean(r))])]
TFwd(m, v, env) ==
  LET s == Support(Node(m, v).dist) x == env[v] IN
  CASE s = "pos" -> Map1(NLog, x)
    [] s = "unit" -> Map1(Logit, x)
    [] s = "interval" -> LET l == Limits(m, v, env)
         IN [sh |-> x.sh, d |-> NSeq([k \in 1..Len(x.d) |-> NSub(NLog(NSub(x.d[k], l[1].d[k])), NLog(NSub(l[2].d[k], x.d[k])))])]
    [] s = "simplex" -> SimplexFwd(x)
    [] OTHER -> x
\* log |dx / dq| at x
LogJac(m, v, env) ==
  LET s == Support(Node(m, v).dist) x == env[v] IN
  CASE s = "pos" -> NSum([k \in 1..Len(x.d) |-> NLog(x.d[k])])
    [] s = "unit" -> NSum([k \in 1..Len(x.d) |-> NAdd(NLog(x.d[k]), NLog(NSub("1", x.d[k])))])
    [] s = "interval" -> LET l == Limits(m, v, env)
         IN NSum([k \in 1..Len(x.d) |-> NSub(NAdd(NLog(NSub(x.d[k], l[1].d[k])), NLog(NSub(l[2].d[k], x.d[k]))),
                                             NLog(NSub(l[2].d[k], l[1].d[k])))])
    [] s = "simplex" -> LET n == LastOf(x.sh) rows == Len(x.d) \div n  \* n x_1 ... x_n for each row
         IN NAdd(NMul(NOfInt(rows), NLog(NOfInt(n))), NSum([k \in 1..Len(x.d) |-> NLog(x.d[k])]))
    [] OTHER -> "0"
RECURSIVE Concat(_, _, _, _)
Concat(m, vs, env, i) == IF i > Len(vs) THEN <<>> ELSE TFwd(m, vs[i], env).d \o Concat(m, vs, env, i + 1)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
SeqClose(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : NClose(a[i], b[i], "1e-8", "1e-8")
\* The position of an angle is one modulo 2 pi
TwoPi == "6.283185307179586476925286766559005768394"
RECURSIVE Angles(_, _, _, _)
Angles(m, vs, env, i) ==
  IF i > Len(vs) THEN <<>> ELSE [k \in DOMAIN TFwd(m, vs[i], env).d |-> Node(m, vs[i]).dist = "vonmises"] \o Angles(m, vs, env, i + 1)
BackClose(x, q, angle) ==
  /\ Len(x) = Len(q)
  /\ \A i \in DOMAIN x : NClose(x[i], IF angle[i] THEN NSub(q[i], NMul(TwoPi, NRound(NDiv(q[i], TwoPi)))) ELSE q[i], "1e-8", "1e-8")
NutsTarget(m, vs, env) == NAdd(LogJoint(m, env), NSum([i \in DOMAIN vs |-> LogJac(m, vs[i], env)]))
Nuts(m, vs, env, env2, probe) ==
  LET orders == IF SeqClose(Concat(m, vs, env, 1), probe.q0) THEN {vs} ELSE Perms({vs[i] : i \in DOMAIN vs})
      ok0 == {o \in orders : SeqClose(Concat(m, o, env, 1), probe.q0)}
      ok1 == {o \in ok0 : BackClose(Concat(m, o, env2, 1), probe.q1, Angles(m, o, env2, 1))}
      t0 == NutsTarget(m, vs, env) t1 == NutsTarget(m, vs, env2)
      \* densities that aren't representable
      over(lf, t) == ~ NFinite(lf) /\ NLt(t, "-1e300")
  IN IF \E i \in DOMAIN vs : Support(Node(m, vs[i]).dist) = "nat" THEN {"a discrete variable is sampled with NUTS"}
     ELSE IF ok0 = {} THEN {"NUTS does not start from the transformed current values"}
     ELSE IF ok1 = {} THEN {"the results of NUTS are not the back-transformed position"}
     ELSE IF over(probe.lf0, t0) \/ over(probe.lf1, t1) THEN {}
     ELSE IF NClose(NSub(probe.lf1, probe.lf0), NSub(t1, t0), "1e-7", "1e-7") THEN {}
     ELSE {"NUTS targets a density that is not the posterior's"}
==============================================================================
