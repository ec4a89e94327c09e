------------------------------- MODULE Theory -------------------------------
(* The facts that the specification's oracles rest on, checked on the            *)
(* specification's own definitions (nothing of the implementation is involved):  *)
(*   norm   every density of Dist integrates to one over its support;            *)
(*   jac    the change of variables of NUTS steps: LogJac is log |dx/dq|, and    *)
(*          the transformation of the support's ends is the whole real line;     *)
(*   vec    the densities of vectors and the simplex' change of variables;       *)
(*   hc     the inverse-gamma augmentation of the half-Cauchy: with u ~          *)
(*          Gamma(1/2, 1) and 1/l^2 | u ~ Gamma(1/2, u), l is half-Cauchy, u | l *)
(*          is Exp(1 + 1/l^2), and 1/l^2 given u and a normal with standard      *)
(*          deviation l t s is Exp(u + b^2/(2 t^2 s^2));                         *)
(*   tau    likewise for a standard deviation shared by p normals;               *)
(*   pg     with the tilting term b log cosh(psi/2) the log likelihood of a      *)
(*          logit psi is linear in psi, so the augmented conditional of the      *)
(*          coefficients is normal;                                              *)
(*   crt    the number of successes of independent Bernoulli(h/(n-1+h)) draws    *)
(*          has the weights |s(y, l)| h^l Gamma(h)/Gamma(h+y) of the CRT, and    *)
(*          sums over l give back the negative binomial's factor;                *)
(*   conj   the test for conjugate steps (Conj) accepts the right law and rejects *)
(*          neighbouring ones.                                                   *)
EXTENDS Kernels, TLC, Json
VARIABLES q, done
F(i) == NOfInt(i)
Grid(lo, n, step) == [k \in 0..n |-> NAdd(lo, NMul(F(k), step))]
RECURSIVE SumF(_, _, _)
SumF(f, a, b) == IF a > b THEN "0" ELSE NSum([k \in 1..(b - a + 1) |-> f[a + k - 1]])

\* --- densities: the trapezoidal rule for the density of q = sinh-like transforms of x
Sinh(x) == NMul(Half, NSub(NExp(x), NExp(NNeg(x))))
Cosh(x) == NMul(Half, NAdd(NExp(x), NExp(NNeg(x))))
\* x and log dx/ds for s on the real line
FromLine(sup, s, lim) ==
  LET z == Sinh(s) lz == NLog(Cosh(s)) IN
  CASE sup = "pos" -> [x |-> NExp(z), j |-> NAdd(z, lz)]
    [] sup = "unit" -> [x |-> NSigmoid(z), j |-> NAdd(NSub(NNeg(NSoftplus(z)), NSoftplus(NNeg(z))), lz)]
    [] sup = "interval" -> [x |-> NAdd(lim[1], NMul(NSub(lim[Len(lim)], lim[1]), NSigmoid(z))),
                            j |-> NSum(<<NLog(NSub(lim[Len(lim)], lim[1])), NNeg(NSoftplus(z)), NNeg(NSoftplus(NNeg(z))), lz>>)]
    [] OTHER -> [x |-> Sinh(z), j |-> NAdd(NLog(Cosh(z)), lz)]
Step == "0.03125"
Integral(dist, a) ==
  LET sup == Support(dist)
      val(k) == LET t == FromLine(sup, NMul(F(k), Step), a) l == NAdd(LogPdf(dist, a, t.x), t.j)
                IN IF NFinite(l) THEN NExp(l) ELSE "0"
  IN NMul(Step, NSum([k \in 1..257 |-> val(k - 129)]))
Mass(dist, a, upto) == NSum([k \in 1..(upto + 1) |-> LET l == LogPdf(dist, a, F(k - 1)) IN IF NFinite(l) THEN NExp(l) ELSE "0"])
NormSpace == {<<"normal", <<"0.3", "1.7">>>>, <<"gamma", <<"0.7", "2.1">>>>, <<"gamma", <<"4.5", "0.3">>>>,
  <<"invgamma", <<"1.3", "0.6">>>>, <<"exponential", <<"2.4">>>>, <<"beta", <<"0.8", "2.3">>>>, <<"beta", <<"3.1", "0.9">>>>,
  <<"halfcauchy", <<"0", "1">>>>, <<"halfcauchy", <<"0", "2.5">>>>, <<"halfnormal", <<"0", "1.6">>>>, <<"lognormal", <<"-0.4", "0.8">>>>,
  <<"uniform", <<"-1.5", "2.2">>>>, <<"cauchy", <<"0.7", "1.4">>>>, <<"laplace", <<"0", "0.6">>>>, <<"logistic", <<"-1", "0.7">>>>,
  <<"gumbel", <<"0.4", "1.2">>>>, <<"t", <<"3.5", "0.2", "1.3">>>>, <<"weibull", <<"1.6">>>>, <<"wald", <<"1.4", "2.3">>>>, <<"triangular", <<"-1", "0.7", "2">>>>, <<"chisquare", <<"3">>>>, <<"standard_normal", <<>>>>,
  <<"poisson", <<"3.7">>>>, <<"bernoulli", <<"0.3">>>>, <<"binomial", <<"7", "0.35">>>>, <<"nbinom", <<"2.6", "0.45">>>>, <<"geometric", <<"0.4">>>>}
Norm(d) == IF Support(d[1]) = "nat" THEN NClose(Mass(d[1], d[2], 120), "1", "1e-12", "0")
           ELSE NClose(Integral(d[1], d[2]), "1", IF d[1] \in {"laplace", "triangular"} THEN "1e-3" ELSE "1e-7", "0")

\* --- change of variables: x + dx for a small step of q
JM(dist, a) == <<[name |-> "x", dist |-> dist, args |-> [i \in DOMAIN a |-> [op |-> "const", v |-> T0(a[i])]]]>>
Jac(d) ==
  LET m == JM(d[1], d[2]) e(x) == [x |-> T0(x)] x == d[3]  dx == "1e-12"
      dq == NSub(TFwd(m, "x", e(NAdd(x, dx))).d[1], TFwd(m, "x", e(NSub(x, dx))).d[1])
  IN NClose(LogJac(m, "x", e(x)), NLog(NDiv(NMul("2", dx), dq)), "1e-9", "1e-9")
JacSpace == {<<"gamma", <<"2", "1">>, "0.4">>, <<"exponential", <<"2">>, "3.1">>, <<"beta", <<"1", "2">>, "0.2">>, <<"beta", <<"1", "2">>, "0.93">>,
  <<"uniform", <<"-1.5", "2.5">>, "-1">>, <<"uniform", <<"-1.5", "2.5">>, "2.2">>, <<"normal", <<"0", "1">>, "0.7">>,
  <<"halfcauchy", <<"0", "1">>, "2.2">>, <<"invgamma", <<"2", "1">>, "0.7">>, <<"lognormal", <<"0", "1">>, "1.9">>,
  <<"triangular", <<"-1", "0.7", "2">>, "0.2">>, <<"wald", <<"1", "2">>, "1.3">>}

\* --- vectors: two-dimensional ones against their scalar relatives, and the simplex' change of variables
VM(dist, args) == <<[name |-> "x", dist |-> dist, args |-> [i \in DOMAIN args |-> [op |-> "const", v |-> args[i]]]]>>
VPdf(dist, args, x) == NodePdf(VM(dist, args)[1], [x |-> x])
Vec2(a, b) == T1(<<a, b>>)
VecFacts == {
  <<"beta", NClose(VPdf("dirichlet", <<Vec2("1.7", "0.6")>>, Vec2("0.3", "0.7")), BetaL("1.7", "0.6", "0.3"), "1e-25", "0")>>,
  <<"rows", NClose(VPdf("dirichlet", <<Vec2("1.7", "0.6")>>, [sh |-> <<2, 2>>, d |-> <<"0.3", "0.7", "0.9", "0.1">>]),
                   NAdd(BetaL("1.7", "0.6", "0.3"), BetaL("1.7", "0.6", "0.9")), "1e-25", "0")>>,
  <<"rowpars", NClose(VPdf("dirichlet", <<[sh |-> <<2, 2>>, d |-> <<"1.7", "0.6", "2", "3">>]>>, [sh |-> <<2, 2>>, d |-> <<"0.3", "0.7", "0.9", "0.1">>]),
                      NAdd(BetaL("1.7", "0.6", "0.3"), BetaL("2", "3", "0.9")), "1e-25", "0")>>,
  <<"binomial", NClose(VPdf("multinomial", <<T0("7"), Vec2("0.3", "0.7")>>, Vec2("2", "5")), BinomL("7", "0.3", "2"), "1e-25", "0")>>,
  <<"cat", NClose(VPdf("categorical", <<Vec2("0.3", "0.7")>>, T1(<<"1", "0", "1">>)), NSum(<<NLog("0.3"), NMul("2", NLog("0.7"))>>), "1e-25", "0")>>,
  \* x1 ~ N(m1, a), x2 | x1 ~ N(m2 + c/a (x1 - m1), b - c^2/a)
  <<"mvn", LET a == "1.44" b == "2.1" c == "-0.6" IN
     NClose(VPdf("multivariate_normal", <<Vec2("0.2", "-1"), [sh |-> <<2, 2>>, d |-> <<a, c, c, b>>]>>, Vec2("0.9", "0.4")),
            NAdd(NormalL("0.2", NSqrt(a), "0.9"), NormalL(NAdd("-1", NMul(NDiv(c, a), NSub("0.9", "0.2"))), NSqrt(NSub(b, NDiv(Sq(c), a))), "0.4")),
            "1e-25", "0")>>,
  \* three categories: the determinant of dq/d(x1, x2) by differences
  <<"simplex", LET m == VM("dirichlet", <<T1(<<"1", "2", "3">>)>>)
                   x(a, b) == [x |-> T1(<<a, b, NSub(NSub("1", a), b)>>)]
                   h == "1e-12"
                   d1(i) == NDiv(NSub(TFwd(m, "x", x(NAdd("0.2", h), "0.5")).d[i], TFwd(m, "x", x(NSub("0.2", h), "0.5")).d[i]), NMul("2", h))
                   d2(i) == NDiv(NSub(TFwd(m, "x", x("0.2", NAdd("0.5", h))).d[i], TFwd(m, "x", x("0.2", NSub("0.5", h))).d[i]), NMul("2", h))
               IN NClose(LogJac(m, "x", x("0.2", "0.5")), NNeg(NLog(NAbs(NSub(NMul(d1(1), d2(2)), NMul(d1(2), d2(1)))))), "1e-9", "1e-9")>>,
  <<"cos", NClose(NCos("1.0471975511965977461542144610931676280657"), "0.5", "1e-30", "0") /\ NClose(NCos("-6.2831853071795864769252867665590057683943"), "1", "1e-30", "0")>>}

\* --- half-Cauchy augmentation, in terms of g = 1 / l^2, dl = l^3/2 dg
LogHC(l) == LogPdf("halfcauchy", <<"0", "1">>, l)
HC(l, u) == NClose(
  NSub(NSum(<<GammaL(Half, "1", u), GammaL(Half, u, NDiv("1", Sq(l))), NSub(Log2, NMul("3", NLog(l)))>>),
       NAdd(LogHC(l), GammaL("1", NAdd("1", NDiv("1", Sq(l))), u))), "0", "0", "1e-25")
HCB(u, b, ts) ==
  LET f(g) == LET l == NDiv("1", NSqrt(g)) IN
        NSub(NAdd(GammaL(Half, u, g), NormalL("0", NMul(l, ts), b)), GammaL("1", NAdd(u, NDiv(Sq(b), NMul("2", Sq(ts)))), g))
  IN AllClose(<<f("0.2"), f("1"), f("3.7"), f("11")>>, "1e-20")
Tau(u, bs, p) ==
  LET ss == NSum([k \in 1..p |-> Sq(bs[k])])
      f(g) == LET t == NDiv("1", NSqrt(g)) IN
        NSub(NAdd(GammaL(Half, u, g), NSum([k \in 1..p |-> NormalL("0", t, bs[k])])),
             GammaL(NDiv(F(p + 1), "2"), NAdd(u, NMul(Half, ss)), g))
  IN AllClose(<<f("0.2"), f("1"), f("3.7"), f("11")>>, "1e-20")

\* --- Polya-Gamma
PG(dist, h, y) ==
  LET b == IF dist = "nbinom" THEN NAdd(h, y) ELSE "1"
      l(psi) == LET p == NSigmoid(psi) IN
        NAdd(LogPdf(dist, IF dist = "nbinom" THEN <<h, p>> ELSE <<p>>, y), NMul(b, LogCosh(NMul(Half, psi))))
      d2(s) == NSub(NAdd(l(NAdd(s, "1")), l(NSub(s, "1"))), NMul("2", l(s)))
  IN \A s \in {"-3", "-0.4", "0", "1.7"} : NClose(d2(s), "0", "0", "1e-25")

\* --- CRT: successes of Bernoulli(h / (n - 1 + h)), n = 1..y
RECURSIVE CrtP(_, _, _)
CrtP(y, l, h) == IF l < 0 \/ l > y THEN "0" ELSE IF y = 0 THEN (IF l = 0 THEN "1" ELSE "0")
  ELSE LET p == NDiv(h, NAdd(F(y - 1), h)) IN NAdd(NMul(p, CrtP(y - 1, l - 1, h)), NMul(NSub("1", p), CrtP(y - 1, l, h)))
RECURSIVE Stirling(_, _)
Stirling(n, k) == IF n = 0 THEN (IF k = 0 THEN 1 ELSE 0) ELSE IF k <= 0 \/ k > n THEN 0 ELSE Stirling(n - 1, k - 1) + (n - 1) * Stirling(n - 1, k)
RECURSIVE NPow(_, _)
NPow(x, n) == IF n = 0 THEN "1" ELSE NMul(x, NPow(x, n - 1))
CRT(y, h) ==
  LET w(l) == NMul(F(Stirling(y, l)), NPow(h, l))  z == NExp(NSub(NLgamma(NAdd(h, F(y))), NLgamma(h)))
  IN /\ \A l \in 0..y : NClose(CrtP(y, l, h), NDiv(w(l), z), "1e-20", "1e-25")
     /\ NClose(NSum([l \in 1..(y + 1) |-> w(l - 1)]), z, "1e-20", "0")

\* --- conjugacy on Dist's definitions (what Conj's constancy test accepts and rejects)
ConjOk(prior, obs, at, post, want) ==
  LET pts == <<"0.11", "0.35", "0.5", "0.72", "0.93">>
      lik(x) == LogPdf(obs, [i \in DOMAIN at.a |-> IF i = at.i THEN x ELSE at.a[i]], at.y)
  IN want = AllClose([j \in 1..5 |-> NSub(NAdd(LogPdf(prior[1], prior[2], pts[j]), lik(pts[j])), LogPdf(post[1], post[2], pts[j]))], Tol)
ConjSpace == {
  <<<<"beta", <<"2", "3">>>>, "binomial", [a |-> <<"9", "x">>, i |-> 2, y |-> "4"], <<"beta", <<"6", "8">>>>, TRUE>>,
  <<<<"beta", <<"2", "3">>>>, "binomial", [a |-> <<"9", "x">>, i |-> 2, y |-> "4"], <<"beta", <<"7", "8">>>>, FALSE>>,
  <<<<"beta", <<"2", "3">>>>, "nbinom", [a |-> <<"5", "x">>, i |-> 2, y |-> "4"], <<"beta", <<"7", "7">>>>, TRUE>>,
  <<<<"beta", <<"2", "3">>>>, "nbinom", [a |-> <<"5", "x">>, i |-> 2, y |-> "4"], <<"beta", <<"6", "8">>>>, FALSE>>,
  <<<<"gamma", <<"2", "3">>>>, "poisson", [a |-> <<"x">>, i |-> 1, y |-> "4"], <<"gamma", <<"6", "4">>>>, TRUE>>,
  <<<<"gamma", <<"2", "3">>>>, "poisson", [a |-> <<"x">>, i |-> 1, y |-> "4"], <<"gamma", <<"6", "0.25">>>>, FALSE>>}

Us == {"0.05", "0.6", "1.9", "7"}  Ls == {"0.03", "0.8", "1", "4.2", "37"}  Hs == {"0.2", "1", "3.3", "17"}
Space ==
  {[t |-> "norm", a |-> ToString(d), ok |-> Norm(d)] : d \in NormSpace}
  \cup {[t |-> "jac", a |-> ToString(d), ok |-> Jac(d)] : d \in JacSpace}
  \cup {[t |-> "vec", a |-> f[1], ok |-> f[2]] : f \in VecFacts}
  \cup {[t |-> "hc", a |-> ToString(<<l, u>>), ok |-> HC(l, u)] : l \in Ls, u \in Us}
  \cup {[t |-> "hcb", a |-> ToString(<<u, b, ts>>), ok |-> HCB(u, b, ts)] : u \in Us, b \in {"-2.1", "0.4", "9"}, ts \in {"0.3", "1", "6"}}
  \cup {[t |-> "tau", a |-> ToString(<<u, p>>), ok |-> Tau(u, <<"0.4", "-1.3", "2.2", "0.1">>, p)] : u \in Us, p \in 1..4}
  \cup {[t |-> "pg", a |-> ToString(<<h, y>>), ok |-> PG("nbinom", h, y)] : h \in Hs, y \in {"0", "1", "6", "40"}}
  \cup {[t |-> "pgb", a |-> ToString(<<y>>), ok |-> PG("bernoulli", "1", y)] : y \in {"0", "1"}}
  \cup {[t |-> "crt", a |-> ToString(<<y, h>>), ok |-> CRT(y, h)] : y \in 0..9, h \in Hs}
  \cup {[t |-> "conj", a |-> ToString(d), ok |-> ConjOk(d[1], d[2], d[3], d[4], d[5])] : d \in ConjSpace}
Init == q \in Space /\ done = FALSE
Next == ~done /\ done' = TRUE /\ q' = q /\ (q.ok \/ PrintT("RESULT " \o ToJson([t |-> q.t, a |-> q.a])))
Holds == q.ok
=============================================================================
