-------------------------------- MODULE Dist --------------------------------
(* The log densities of the distributions that models are made of, in the     *)
(* parametrisation of the constructors that users call, at.random.X(...).     *)
EXTENDS Integers, Sequences, Num

Half == "0.5"
LogPi == "1.1447298858494001741434273513530587116472948129153115715136"
Log2 == "0.693147180559945309417232121458176568075500134360255254120680"
Log2Pi == "1.8378770664093454835606594728112352797227949472755668256343"
Sq(x) == NMul(x, x)
Std(x, m, s) == NDiv(NSub(x, m), s)
Log1p2(z) == NLog(NAdd("1", Sq(z)))

NormalL(m, s, x) == NSub(NNeg(NMul(Half, NAdd(Log2Pi, Sq(Std(x, m, s))))), NLog(s))
GammaL(a, r, x) == IF NLt("0", x)
  THEN NSum(<<NMul(a, NLog(r)), NNeg(NLgamma(a)), NMul(NSub(a, "1"), NLog(x)), NNeg(NMul(r, x))>>) ELSE "-inf"
InvGammaL(a, b, x) == IF NLt("0", x)
  THEN NSum(<<NMul(a, NLog(b)), NNeg(NLgamma(a)), NNeg(NMul(NAdd(a, "1"), NLog(x))), NNeg(NDiv(b, x))>>) ELSE "-inf"
BetaL(a, b, x) == IF NLt("0", x) /\ NLt(x, "1")
  THEN NSum(<<NLgamma(NAdd(a, b)), NNeg(NLgamma(a)), NNeg(NLgamma(b)),
              NMul(NSub(a, "1"), NLog(x)), NMul(NSub(b, "1"), NLog(NSub("1", x)))>>) ELSE "-inf"
CauchyL(l, s, x) == NNeg(NSum(<<LogPi, NLog(s), Log1p2(Std(x, l, s))>>))
IsNat(x) == NIsInt(x) /\ NLe("0", x)
\* x log y, which is 0 when x is 0
XLogY(x, y) == IF NEq(x, "0") THEN "0" ELSE NMul(x, NLog(y))
BinomL(n, p, x) == IF IsNat(x) /\ NLe(x, n)
  THEN NSum(<<NLgamma(NAdd(n, "1")), NNeg(NLgamma(NAdd(x, "1"))), NNeg(NLgamma(NAdd(NSub(n, x), "1"))),
              XLogY(x, p), XLogY(NSub(n, x), NSub("1", p))>>) ELSE "-inf"
NBinomL(n, p, x) == IF IsNat(x)
  THEN NSum(<<NLgamma(NAdd(n, x)), NNeg(NLgamma(n)), NNeg(NLgamma(NAdd(x, "1"))),
              XLogY(n, p), XLogY(x, NSub("1", p))>>) ELSE "-inf"
PoissonL(m, x) == IF IsNat(x) THEN NSum(<<XLogY(x, m), NNeg(m), NNeg(NLgamma(NAdd(x, "1")))>>) ELSE "-inf"

TriangularL(l, m, u, x) ==
  IF NLt(x, l) \/ NLt(u, x) THEN "-inf"
  ELSE LET r == NSub(u, l) IN
    IF NLt(x, m) THEN NSub(NAdd(Log2, NLog(NSub(x, l))), NAdd(NLog(r), NLog(NSub(m, l))))
    ELSE NSub(NAdd(Log2, NLog(NSub(u, x))), NAdd(NLog(r), NLog(NSub(u, m))))
\* the inverse Gaussian distribution with the mean m and the shape l
WaldL(m, l, x) == IF NLt("0", x)
  THEN NMul(Half, NSum(<<NLog(l), NNeg(Log2Pi), NNeg(NMul("3", NLog(x))), NNeg(NDiv(NMul(l, Sq(NSub(x, m))), NMul(Sq(m), x)))>>)) ELSE "-inf"
\* ... up to a function of k: the concentration has to be known
VonMisesL(m, k, x) == NMul(k, NCos(NSub(x, m)))

\* log density of the distribution with the (scalar) parameters a at the scalar x
LogPdf(dist, a, x) ==
  CASE dist = "normal" -> NormalL(a[1], a[2], x)
    [] dist = "gamma" -> GammaL(a[1], a[2], x)                        \* shape and rate
    [] dist = "invgamma" -> InvGammaL(a[1], a[2], x)                  \* shape and scale
    [] dist = "exponential" -> GammaL("1", NDiv("1", a[1]), x)        \* scale
    [] dist = "beta" -> BetaL(a[1], a[2], x)
    [] dist = "halfcauchy" -> IF NLt(x, a[1]) THEN "-inf" ELSE NAdd(Log2, CauchyL(a[1], a[2], x))
    [] dist = "halfnormal" -> IF NLt(x, a[1]) THEN "-inf" ELSE NAdd(Log2, NormalL(a[1], a[2], x))
    [] dist = "lognormal" -> IF NLt("0", x) THEN NSub(NormalL(a[1], a[2], NLog(x)), NLog(x)) ELSE "-inf"
    [] dist = "uniform" -> IF NLe(a[1], x) /\ NLe(x, a[2]) THEN NNeg(NLog(NSub(a[2], a[1]))) ELSE "-inf"
    [] dist = "cauchy" -> CauchyL(a[1], a[2], x)
    [] dist = "laplace" -> NNeg(NSum(<<Log2, NLog(a[2]), NAbs(Std(x, a[1], a[2]))>>))
    [] dist = "logistic" -> LET z == Std(x, a[1], a[2]) IN NNeg(NSum(<<z, NLog(a[2]), NMul("2", NSoftplus(NNeg(z)))>>))
    [] dist = "gumbel" -> LET z == Std(x, a[1], a[2]) IN NNeg(NSum(<<z, NLog(a[2]), NExp(NNeg(z))>>))
    [] dist = "t" -> LET n == a[1] z == Std(x, a[2], a[3])  h == NMul(Half, NAdd(n, "1"))
         IN NSum(<<NLgamma(h), NNeg(NLgamma(NMul(Half, n))), NNeg(NMul(Half, NAdd(LogPi, NLog(n)))), NNeg(NLog(a[3])),
                   NNeg(NMul(h, NLog(NAdd("1", NDiv(Sq(z), n)))))>>)
    [] dist = "weibull" -> IF NLt("0", x)
         THEN NSum(<<NLog(a[1]), NMul(NSub(a[1], "1"), NLog(x)), NNeg(NExp(NMul(a[1], NLog(x))))>>) ELSE "-inf"
    [] dist = "chisquare" -> GammaL(NMul(Half, a[1]), Half, x)
    [] dist = "triangular" -> TriangularL(a[1], a[2], a[3], x)
    [] dist = "wald" -> WaldL(a[1], a[2], x)
    [] dist = "vonmises" -> VonMisesL(a[1], a[2], x)
    [] dist = "geometric" -> IF NIsInt(x) /\ NLe("1", x) THEN NAdd(NMul(NSub(x, "1"), NLog(NSub("1", a[1]))), NLog(a[1])) ELSE "-inf"
    [] dist = "standard_normal" -> NormalL("0", "1", x)
    [] dist = "poisson" -> PoissonL(a[1], x)
    [] dist = "bernoulli" -> BinomL("1", a[1], x)
    [] dist = "binomial" -> BinomL(a[1], a[2], x)
    [] dist = "nbinom" -> NBinomL(a[1], a[2], x)

\* The support of a distribution
Support(dist) ==
  CASE dist \in {"gamma", "invgamma", "exponential", "halfcauchy", "halfnormal", "lognormal", "weibull", "chisquare"} -> "pos"
    [] dist = "wald" -> "pos"
    [] dist = "beta" -> "unit"
    [] dist \in {"uniform", "triangular"} -> "interval"
    [] dist = "dirichlet" -> "simplex"
    [] dist \in {"poisson", "bernoulli", "binomial", "nbinom", "geometric", "categorical", "multinomial"} -> "nat"
    [] OTHER -> "real"

\* A recorded draw carries the parameters of the random variable's node; there gamma
\* is parametrised by its scale.
LawPdf(dist, a, x) == IF dist = "gamma" THEN GammaL(a[1], NDiv("1", a[2]), x) ELSE LogPdf(dist, a, x)
LawKnown == {"normal", "gamma", "invgamma", "exponential", "beta", "halfcauchy", "halfnormal", "lognormal",
             "uniform", "cauchy", "laplace", "logistic", "gumbel", "poisson", "bernoulli", "binomial", "nbinom", "t", "weibull", "chisquare",
             "geometric", "standard_normal", "triangular", "wald", "vonmises"}
=============================================================================
