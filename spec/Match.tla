-------------------------------- MODULE Match --------------------------------
(* Which models get a specialised step.  The module enumerates models around   *)
(* the documented patterns: every model that differs from a pattern in at most *)
(* MaxDev choices.  `must` is the set of the variables for which a specialised *)
(* step has to be used; for the others it may be, if it is right, and           *)
(* gradient-based sampling is used otherwise.  The enumerated models are built *)
(* with the real code, and their samplers' iterations are replayed by           *)
(* SamplerTrace.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT MaxDev
VARIABLES d, done

Var(n) == [op |-> "var", n |-> n]
C(x) == [op |-> "const", v |-> [sh |-> <<>>, d |-> <<x>>]]
CV(x, n) == [op |-> "const", v |-> [sh |-> <<n>>, d |-> [i \in 1..n |-> x]]]
CW(xs) == [op |-> "const", v |-> [sh |-> <<Len(xs)>>, d |-> xs]]
F1(o, a) == [op |-> o, a |-> <<a>>]
F2(o, a, b) == [op |-> o, a |-> <<a, b>>]
NoSize == <<-1>>
RV(name, dist, args, size, sh, obs) == [name |-> name, dist |-> dist, args |-> args, size |-> size, sh |-> sh, obs |-> obs]
In(name, sh, what) == [name |-> name, sh |-> sh, what |-> what, row |-> FALSE]
\* a matrix that is known to have a single row
InRow(name, sh, what) == [name |-> name, sh |-> sh, what |-> what, row |-> TRUE]
\* as many as another variable's (a use of its shape only)
Like(name, of, sh) == [name |-> name, dist |-> "normal", args |-> <<C("0.3"), C("1")>>, size |-> sh, sh |-> sh, obs |-> TRUE, like |-> of]
Sz(sh) == IF sh = <<>> THEN NoSize ELSE sh

Dev(x, base) == Cardinality({f \in DOMAIN base : x[f] # base[f]})

---------------------------------------------------------------------------
(* Conjugate pairs *)
ConjBase == [fam |-> "conj", pair |-> "gp", shape |-> "s", use |-> "one", prior |-> "conj", hyper |-> "const"]
ConjSpace == {x \in [fam: {"conj"}, pair: {"gp", "bb", "bnb"}, shape: {"s", "v", "m"},
                     use: {"one", "two", "bcast", "bcastleft", "scaled", "also", "parent", "twice", "stretch", "shape"}, prior: {"conj", "other"},
                     hyper: {"const", "latent", "input", "both"}] :
                /\ (x.use = "twice" => x.pair = "bnb") /\ (x.use = "shape" => x.shape = "v")
                /\ Dev(x, [ConjBase EXCEPT !.pair = x.pair, !.shape = IF x.shape = "m" THEN "s" ELSE x.shape]) <= MaxDev}
ConjModel(x) ==
  LET ysh == CASE x.shape = "s" -> <<>> [] x.shape = "v" -> <<3>> [] OTHER -> <<2, 3>>
      \* a prior of the observations' dimensions with a length of one
      sh == CASE x.use # "stretch" -> ysh [] x.shape = "m" -> <<1, 3>> [] OTHER -> <<1>>
      bsh == IF x.use = "stretch" THEN (IF ysh = <<>> THEN <<4>> ELSE ysh) ELSE IF x.use = "bcast" THEN <<4>> \o sh ELSE IF x.use = "bcastleft" /\ sh = <<>> THEN <<1>> ELSE sh
      mu == RV("mu", "normal", <<C("0"), C("1")>>, NoSize, <<>>, FALSE)
      hyp(name) == CASE x.hyper = "const" -> C("1.4")
                     [] x.hyper = "latent" /\ name = "b" -> F1("exp", Var("mu"))
                     [] x.hyper = "both" -> F1("exp", Var("mu"))
                     [] OTHER -> IF name = "a" THEN C("1.7") ELSE Var("b")
      a == hyp("a")  b == hyp("b")
      z == IF x.prior = "conj"
           THEN RV("z", IF x.pair = "gp" THEN "gamma" ELSE "beta", <<a, b>>, Sz(sh), sh, FALSE)
           ELSE IF x.pair = "gp" THEN RV("z", "lognormal", <<C("0.2"), b>>, Sz(sh), sh, FALSE)
           ELSE RV("z", "uniform", <<C("0.05"), C("0.95")>>, Sz(sh), sh, FALSE)
      zz == IF x.use = "scaled" THEN F2("mul", C("0.6"), Var("z")) ELSE Var("z")
      Y(n) == CASE x.pair = "gp" -> RV(n, "poisson", <<zz>>, Sz(bsh), bsh, TRUE)
                [] x.pair = "bb" -> RV(n, "binomial", <<C("9"), zz>>, Sz(bsh), bsh, TRUE)
                [] x.use = "twice" -> RV(n, "nbinom", <<zz, zz>>, Sz(bsh), bsh, TRUE)
                [] OTHER -> RV(n, "nbinom", <<C("4"), zz>>, Sz(bsh), bsh, TRUE)
      rest == CASE x.use = "two" -> <<Y("Y"), Y("Y2")>>
                [] x.use = "also" -> <<Y("Y"), RV("W", "normal", <<Var("z"), C("1")>>, NoSize, sh, TRUE)>>
                [] x.use = "parent" -> <<Y("Y"), RV("x", "normal", <<Var("z"), C("1")>>, NoSize, sh, FALSE),
                                         RV("W", "normal", <<Var("x"), C("0.5")>>, NoSize, sh, TRUE)>>
                [] x.use = "shape" -> <<Y("Y"), Like("W", "z", sh)>>
                [] OTHER -> <<Y("Y")>>
      uses == x.hyper \in {"latent", "both"} /\ (x.prior = "conj" \/ x.pair = "gp")
  IN [inputs |-> IF x.hyper = "input" /\ (x.prior = "conj" \/ x.pair = "gp") THEN <<In("b", <<>>, "pos")>> ELSE <<>>,
      nodes |-> (IF uses THEN <<mu>> ELSE <<>>) \o <<z>> \o rest,
      must |-> IF x.use \in {"one", "shape"} /\ x.prior = "conj" THEN {"z"} ELSE {}]

---------------------------------------------------------------------------
(* Horseshoes *)
HSBase == [fam |-> "hs", order |-> "lt", taush |-> "0", mean |-> "0", lsc |-> "1", tsc |-> "1", tloc |-> "0",
           sd |-> "mul", extra |-> "none", beta |-> "obs", known |-> "none", betash |-> "3", lamsh |-> "3"]
HSSpace == {x \in [fam: {"hs"}, order: {"lt", "tl"}, taush: {"0", "1"}, mean: {"0", "vec0", "0.5", "0.004", "vecmix", "input"},
                   lsc: {"1", "2", "0.998", "vecmix"}, tsc: {"1", "2", "1.003", "input"}, tloc: {"0", "0.25", "0.001"}, sd: {"mul", "muls", "dup", "add", "lam", "sqr", "exp"},
                   extra: {"none", "lam", "tau", "child", "shape"}, beta: {"obs", "normal", "nb"}, known: {"none", "lam", "tau"},
                   betash: {"3", "2x3"}, lamsh: {"3", "1"}] :
              /\ Dev(x, [HSBase EXCEPT !.order = x.order, !.taush = x.taush]) <= MaxDev
              /\ (x.beta = "nb" => x.betash = "3" /\ x.extra # "child")
              /\ (x.lamsh = "1" => x.lsc # "vecmix")}
HSModel(x) ==
  LET tsh == IF x.taush = "1" THEN <<1>> ELSE <<>>
      bsh == IF x.betash = "3" THEN <<3>> ELSE <<2, 3>>
      lsh == IF x.lamsh = "1" THEN <<1>> ELSE <<3>>
      tau == RV("tau", "halfcauchy", <<C(x.tloc), IF x.tsc = "input" THEN Var("ts") ELSE C(x.tsc)>>, Sz(tsh), tsh, x.known = "tau")
      lam == RV("lam", "halfcauchy", <<C("0"), IF x.lsc = "vecmix" THEN CW(<<"1", "1", "2">>) ELSE C(x.lsc)>>, lsh, lsh, x.known = "lam")
      m == IF x.order = "lt" THEN F2("mul", Var("lam"), Var("tau")) ELSE F2("mul", Var("tau"), Var("lam"))
      sd == CASE x.sd = "mul" -> m
              [] x.sd = "muls" -> F2("mul", m, C("1.3"))
              [] x.sd = "dup" -> F2("mul", F2("mul", Var("lam"), Var("lam")), Var("tau"))
              [] x.sd = "add" -> F2("add", Var("lam"), Var("tau"))
              [] x.sd = "lam" -> Var("lam")
              [] x.sd = "sqr" -> F2("mul", F1("sqr", Var("lam")), Var("tau"))
              [] OTHER -> F1("exp", F2("mul", C("0.2"), m))
      mean == CASE x.mean = "0" -> C("0") [] x.mean = "vec0" -> CV("0", 3) [] x.mean \in {"0.5", "0.004"} -> C(x.mean)
                [] x.mean = "vecmix" -> CW(<<"0", "0.6", "0">>) [] OTHER -> Var("mean")
      beta == RV("beta", "normal", <<mean, sd>>, bsh, bsh, x.beta = "obs")
      usesTau == x.sd # "lam"
      extra == (IF x.extra = "tau" \/ ~usesTau THEN <<RV("V", "normal", <<Var("tau"), C("1")>>, NoSize, tsh, TRUE)>> ELSE <<>>) \o
               CASE x.extra = "lam" -> <<RV("W", "normal", <<Var("lam"), C("1")>>, NoSize, lsh, TRUE)>>
                 [] x.extra = "shape" -> <<Like("W", "lam", lsh)>>
                 [] x.extra = "child" -> <<RV("W", "normal", <<Var("beta"), C("1")>>, NoSize, bsh, TRUE)>>
                 [] OTHER -> <<>>
      lik == CASE x.beta = "normal" -> <<RV("Y", "normal", <<Var("beta"), C("0.5")>>, NoSize, bsh, TRUE)>>
               [] x.beta = "nb" -> <<RV("Y", "nbinom", <<C("3"), F1("sigmoid", F1("neg", F2("dot", Var("X"), Var("beta"))))>>, NoSize, <<4>>, TRUE)>>
               [] OTHER -> <<>>
      hs == /\ x.mean \in {"0", "vec0"} /\ x.lsc = "1" /\ x.tsc = "1" /\ x.tloc = "0" /\ x.sd = "mul" /\ x.known = "none"
            /\ x.extra \in {"none", "child", "shape"} /\ x.betash = "3" /\ x.lamsh = "3"
      reg == x.beta = "nb" /\ x.mean \in {"0", "vec0"}
  IN [inputs |-> (IF x.mean = "input" THEN <<In("mean", <<>>, "real")>> ELSE <<>>) \o (IF x.beta = "nb" THEN <<In("X", <<4, 3>>, "real")>> ELSE <<>>)
                 \o (IF x.tsc = "input" THEN <<In("ts", <<>>, "pos")>> ELSE <<>>),
      nodes |-> <<tau, lam, beta>> \o extra \o lik,
      must |-> (IF hs THEN {"lam", "tau"} ELSE {}) \cup (IF reg THEN {"beta"} ELSE {})]

---------------------------------------------------------------------------
(* Logistic regressions *)
RegBase == [fam |-> "reg", lik |-> "nb", link |-> "neg", mean |-> "0", sd |-> "scalar", h |-> "const", extra |-> "none",
            known |-> "none", ysize |-> "n", prior |-> "normal", rows |-> "4"]
RegSpace == {x \in [fam: {"reg"}, lik: {"nb", "bern"},
                    link: {"neg", "negX", "mul-1", "mulr-1", "div-1", "sub0", "negnegneg", "pos", "mul-2", "offset", "recip",
                           "scale", "vec-1", "vecmix", "mul-1.002", "negsq", "neg+neg", "mul-1-1"},
                    mean: {"0", "1", "vec0", "-0.003", "vecmix", "latent"}, sd: {"scalar", "vec", "latent", "hs", "input"},
                    h: {"const", "input", "vecinput", "gamma", "gammavec", "exp", "lognormal", "invgamma", "gammaused", "gammalatent"},
                    extra: {"none", "also", "twoY", "parent", "shape"}, known: {"none", "beta", "h"}, ysize: {"n", "2xn"},
                    prior: {"normal", "laplace"}, rows: {"4", "1", "0"}] :
               /\ Dev(x, [RegBase EXCEPT !.lik = x.lik, !.h = IF x.h = "gamma" THEN x.h ELSE @]) <= MaxDev
               /\ (x.lik = "bern" => x.h = "const" /\ x.known # "h")
               /\ (x.rows # "4" => x.h \notin {"vecinput", "gammavec"} /\ x.link \notin {"vec-1", "vecmix"})
               /\ (x.known = "h" => x.h \in {"gamma", "exp", "gammavec", "lognormal"})
               /\ (x.sd = "hs" => x.prior = "normal" /\ x.mean = "0")}
\* The ways of negating the linear predictor that are one way to the matcher
Negated == {"neg", "mul-1", "mulr-1", "negnegneg", "vec-1"}
RegModel(x) ==
  LET dot == F2("dot", Var("X"), Var("beta"))
      p == CASE x.link = "neg" -> F1("sigmoid", F1("neg", dot))
             [] x.link = "negX" -> F1("sigmoid", F2("dot", F1("neg", Var("X")), Var("beta")))
             [] x.link = "mul-1" -> F1("sigmoid", F2("mul", C("-1"), dot))
             [] x.link = "pos" -> F1("sigmoid", dot)
             [] x.link = "mul-2" -> F1("sigmoid", F2("mul", C("-2"), dot))
             [] x.link = "mul-1.002" -> F1("sigmoid", F2("mul", C("-1.002"), dot))
             [] x.link = "negsq" -> F1("sigmoid", F1("neg", F2("mul", dot, dot)))
             [] x.link = "neg+neg" -> F1("sigmoid", F2("sub", F1("neg", dot), dot))
             [] x.link = "mul-1-1" -> F1("sigmoid", F2("mul", C("-1"), F2("mul", C("-1"), dot)))
             [] x.link = "mulr-1" -> F1("sigmoid", F2("mul", dot, C("-1")))
             [] x.link = "div-1" -> F1("sigmoid", F2("div", dot, C("-1")))
             [] x.link = "sub0" -> F1("sigmoid", F2("sub", C("0"), dot))
             [] x.link = "negnegneg" -> F1("sigmoid", F1("neg", F1("neg", F1("neg", dot))))
             [] x.link = "vecmix" -> F1("sigmoid", F2("mul", [op |-> "const", v |-> [sh |-> <<4>>, d |-> <<"-1", "1", "-1", "-1">>]], dot))
             [] x.link = "offset" -> F1("sigmoid", F1("neg", F2("add", dot, C("0.7"))))
             [] x.link = "recip" -> F1("recip", F2("add", C("1"), F1("exp", dot)))
             [] x.link = "scale" -> F1("sigmoid", F2("mul", Var("c"), dot))
             [] OTHER -> F1("sigmoid", F2("mul", CV("-1", 4), dot))
      mean == CASE x.mean = "0" -> C("0") [] x.mean \in {"1", "-0.003"} -> C(x.mean) [] x.mean = "vec0" -> CV("0", 2)
                [] x.mean = "vecmix" -> CW(<<"0", "-0.8">>) [] OTHER -> Var("mu")
      sd == CASE x.sd = "scalar" -> C("1.6") [] x.sd = "vec" -> Var("sd") [] x.sd = "input" -> Var("sd")
              [] x.sd = "latent" -> Var("s") [] OTHER -> F2("mul", Var("lam"), Var("tau"))
      pre == (IF x.mean = "latent" THEN <<RV("mu", "normal", <<C("0"), C("1")>>, NoSize, <<>>, FALSE)>> ELSE <<>>)
             \o (IF x.sd = "latent" THEN <<RV("s", "halfnormal", <<C("0"), C("2")>>, NoSize, <<>>, FALSE)>> ELSE <<>>)
             \o (IF x.sd = "hs" THEN <<RV("tau", "halfcauchy", <<C("0"), C("1")>>, NoSize, <<>>, FALSE),
                                       RV("lam", "halfcauchy", <<C("0"), C("1")>>, <<2>>, <<2>>, FALSE)>> ELSE <<>>)
             \o (IF x.h = "gammalatent" THEN <<RV("hr", "exponential", <<C("1.2")>>, NoSize, <<>>, FALSE)>> ELSE <<>>)
      beta == RV("beta", x.prior, <<mean, sd>>, <<2>>, <<2>>, x.known = "beta")
      hh == CASE x.h \in {"gamma", "gammaused"} -> <<RV("h", "gamma", <<C("2"), C("1.5")>>, NoSize, <<>>, x.known = "h")>>
              [] x.h = "gammalatent" -> <<RV("h", "gamma", <<C("2"), F2("add", Var("hr"), C("0.5"))>>, NoSize, <<>>, FALSE)>>
              [] x.h = "gammavec" -> <<RV("h", "gamma", <<C("2"), C("1.5")>>, <<4>>, <<4>>, x.known = "h")>>
              [] x.h = "exp" -> <<RV("h", "exponential", <<C("2")>>, NoSize, <<>>, x.known = "h")>>
              [] x.h = "lognormal" -> <<RV("h", "lognormal", <<C("0.4"), C("0.8")>>, NoSize, <<>>, x.known = "h")>>
              [] x.h = "invgamma" -> <<RV("h", "invgamma", <<C("3"), C("1.5")>>, NoSize, <<>>, x.known = "h")>>
              [] OTHER -> <<>>
      hv == IF x.h = "const" THEN C("3.25") ELSE Var("h")
      ysh == IF x.ysize = "n" THEN (IF x.rows = "0" THEN <<>> ELSE <<4>>) ELSE <<2, 4>>
      Y(n, pp) == IF x.lik = "nb" THEN RV(n, "nbinom", <<hv, pp>>, Sz(ysh), ysh, TRUE)
                  ELSE RV(n, "bernoulli", <<pp>>, Sz(ysh), ysh, TRUE)
      extra == (CASE x.extra = "also" -> <<RV("W", "normal", <<Var("beta"), C("1")>>, NoSize, <<2>>, TRUE)>>
                  [] x.extra = "shape" -> <<Like("W", "beta", <<2>>)>>
                  [] x.extra = "twoY" -> <<Y("Y2", F1("sigmoid", F1("neg", dot)))>>
                  [] x.extra = "parent" -> <<RV("x", "normal", <<Var("beta"), C("1")>>, NoSize, <<2>>, FALSE),
                                             RV("W", "normal", <<Var("x"), C("0.5")>>, NoSize, <<2>>, TRUE)>>
                  [] OTHER -> <<>>)
               \o (IF x.h = "gammaused" THEN <<RV("V", "normal", <<Var("h"), C("1")>>, NoSize, <<>>, TRUE)>> ELSE <<>>)
      reg == /\ x.link \in Negated /\ x.mean \in {"0", "vec0"} /\ x.prior = "normal" /\ x.ysize = "n" /\ x.rows = "4" /\ x.known # "beta" /\ x.extra \in {"none", "shape"}
      disp == reg /\ x.h \in {"gamma", "gammalatent"} /\ x.known = "none"
      hs == x.sd = "hs"
  IN [inputs |-> <<IF x.rows = "4" THEN In("X", <<4, 2>>, "real") ELSE IF x.rows = "1" THEN InRow("X", <<1, 2>>, "real")
                 ELSE In("X", <<2>>, "real")>>
                 \o (IF x.sd = "vec" THEN <<In("sd", <<2>>, "pos")>> ELSE IF x.sd = "input" THEN <<In("sd", <<>>, "pos")>> ELSE <<>>)
                 \o (IF x.h = "input" THEN <<In("h", <<>>, "pos")>> ELSE IF x.h = "vecinput" THEN <<In("h", <<4>>, "pos")>> ELSE <<>>)
                 \o (IF x.link = "scale" THEN <<In("c", <<>>, "real")>> ELSE <<>>),
      nodes |-> pre \o <<beta>> \o hh \o <<Y("Y", p)>> \o extra,
      must |-> (IF reg THEN {"beta"} ELSE {}) \cup (IF disp THEN {"h"} ELSE {}) \cup (IF hs THEN {"lam", "tau"} ELSE {})]

---------------------------------------------------------------------------
(* Unobserved discrete variables: no specialised step is documented for them,  *)
(* and there is no gradient.  A model with one has no sampler (`refuse`),       *)
(* whatever else is in it.                                                      *)
DiscSpace == [fam: {"disc"}, dist: {"poisson", "bernoulli", "binomial", "nbinom", "geometric", "categorical"},
              with: {"alone", "nuts", "conj", "count"}, shape: {"s", "v"}]
DiscModel(x) ==
  LET sh == IF x.shape = "s" THEN <<>> ELSE <<2>>
      args == CASE x.dist = "poisson" -> <<C("2.3")>>
                [] x.dist \in {"bernoulli", "geometric"} -> <<C("0.4")>>
                [] x.dist = "binomial" -> <<C("5"), C("0.4")>>
                [] x.dist = "nbinom" -> <<C("3"), C("0.4")>>
                [] OTHER -> <<[op |-> "const", v |-> [sh |-> <<3>>, d |-> <<"0.25", "0.25", "0.5">>]]>>
      k == RV("k", x.dist, args, Sz(sh), sh, FALSE)
      m == RV("m", "normal", <<C("0"), C("2")>>, Sz(sh), sh, FALSE)
      z == RV("z", "gamma", <<C("2"), C("1.5")>>, Sz(sh), sh, FALSE)
      Z == RV("Z", "poisson", <<Var("z")>>, NoSize, sh, TRUE)
      mean == IF x.with = "nuts" THEN F2("mul", Var("m"), Var("k")) ELSE F2("mul", C("0.9"), Var("k"))
      Y == RV("Y", "normal", <<mean, C("1")>>, NoSize, sh, TRUE)
      \* the discrete variable is the observation of a conjugate pair that isn't observed
      kz == RV("k", "poisson", <<Var("z")>>, NoSize, sh, FALSE)
  IN [inputs |-> <<>>,
      nodes |-> CASE x.with = "alone" -> <<k, Y>> [] x.with = "nuts" -> <<m, k, Y>> [] x.with = "conj" -> <<z, k, Y, Z>> [] OTHER -> <<z, kz, Y>>,
      must |-> {}]

---------------------------------------------------------------------------
Space == DiscSpace \cup ConjSpace \cup HSSpace \cup RegSpace
Build(x) == CASE x.fam = "conj" -> ConjModel(x) [] x.fam = "hs" -> HSModel(x) [] x.fam = "disc" -> DiscModel(x) [] OTHER -> RegModel(x)

Discrete == {"poisson", "bernoulli", "binomial", "nbinom", "geometric", "categorical"}
Refuse(b) == \E i \in DOMAIN b.nodes : b.nodes[i].dist \in Discrete /\ ~b.nodes[i].obs

Init == d \in Space /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ d' = d
        /\ PrintT("RESULT " \o ToJson([desc |-> d, m |-> Build(d), refuse |-> Refuse(Build(d))]))

\* What is required is consistent: only unobserved variables can be sampled
Consistent == LET b == Build(d) IN
  /\ \A v \in b.must : \E i \in DOMAIN b.nodes : b.nodes[i].name = v /\ ~b.nodes[i].obs
  /\ \A i, j \in DOMAIN b.nodes : b.nodes[i].name = b.nodes[j].name => i = j
=============================================================================
