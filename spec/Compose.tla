------------------------------- MODULE Compose -------------------------------
(* Models made of several parts: every sequence of MinLen to MaxLen parts, each  *)
(* one of the patterns that a specialised step is for or a variable that is left *)
(* for gradient-based sampling.  `link` says what the parts have in common:        *)
(*   none    nothing but the design matrix                                          *)
(*   nuts    their hyperparameters depend on the last variable before them that is  *)
(*           sampled with gradients                                                  *)
(* The module states which variables the steps of a sampler are grouped into and    *)
(* which of them need a specialised step; the kinds of the others are open.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MinLen, MaxLen
VARIABLES parts, link, done

Var(n) == [op |-> "var", n |-> n]
C(x) == [op |-> "const", v |-> [sh |-> <<>>, d |-> <<x>>]]
F1(o, a) == [op |-> o, a |-> <<a>>]
F2(o, a, b) == [op |-> o, a |-> <<a, b>>]
NoSize == <<-1>>
RV(name, dist, args, size, sh, obs) == [name |-> name, dist |-> dist, args |-> args, size |-> size, sh |-> sh, obs |-> obs]

Kinds == {"gp", "bb", "bnb", "hs", "nb", "nbg", "nbhs", "nbghs", "bern", "bernhs", "mu", "scale"}
Range(s) == {s[i] : i \in DOMAIN s}
Seqs == UNION {[1..n -> Kinds] : n \in MinLen..MaxLen}
IsGrad(k) == k \in {"mu", "scale"}
IsReg(k) == k \in {"nb", "nbg", "nbhs", "nbghs", "bern", "bernhs"}

Nm(v, i) == v \o ToString(i)
\* the variable that the hyperparameters of part i depend on, or 0
Above(ps, l, i) == LET S == {j \in 1..(i - 1) : IsGrad(ps[j])} IN
  IF l = "none" \/ S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
Hyper(ps, l, i, x) == LET a == Above(ps, l, i) IN IF a = 0 THEN C(x) ELSE F1("exp", F2("mul", C("0.3"), Var(Nm("g", a))))

Logistic(i) == F1("sigmoid", F1("neg", F2("dot", Var("X"), Var(Nm("b", i)))))
Part(ps, l, i) ==
  LET k == ps[i]  h(x) == Hyper(ps, l, i, x)  z == Nm("z", i)  y == Nm("y", i)  b == Nm("b", i)
      tau == RV(Nm("t", i), "halfcauchy", <<C("0"), C("1")>>, NoSize, <<>>, FALSE)
      lam(n) == RV(Nm("l", i), "halfcauchy", <<C("0"), C("1")>>, <<n>>, <<n>>, FALSE)
      hs == F2("mul", Var(Nm("l", i)), Var(Nm("t", i)))
      beta(sd) == RV(b, "normal", <<C("0"), sd>>, <<2>>, <<2>>, FALSE)
      disp == RV(Nm("h", i), "gamma", <<C("2"), h("1.3")>>, NoSize, <<>>, FALSE)
      Y(n) == RV(y, "nbinom", <<n, Logistic(i)>>, NoSize, <<3>>, TRUE)
      B == RV(y, "bernoulli", <<Logistic(i)>>, NoSize, <<3>>, TRUE)
  IN CASE k = "gp" -> <<RV(z, "gamma", <<C("1.7"), h("0.77")>>, NoSize, <<>>, FALSE), RV(y, "poisson", <<Var(z)>>, NoSize, <<>>, TRUE)>>
       [] k = "bb" -> <<RV(z, "beta", <<h("1.4"), C("2.2")>>, <<2>>, <<2>>, FALSE), RV(y, "binomial", <<C("9"), Var(z)>>, NoSize, <<2>>, TRUE)>>
       [] k = "bnb" -> <<RV(z, "beta", <<C("1.4"), h("2.2")>>, NoSize, <<>>, FALSE), RV(y, "nbinom", <<C("4"), Var(z)>>, NoSize, <<>>, TRUE)>>
       [] k = "hs" -> <<tau, lam(3), RV(b, "normal", <<C("0"), hs>>, <<3>>, <<3>>, TRUE)>>
       [] k = "nb" -> <<beta(h("1.6")), Y(C("2.5"))>>
       [] k = "nbg" -> <<disp, beta(h("1.6")), Y(Var(Nm("h", i)))>>
       [] k = "nbhs" -> <<tau, lam(2), beta(hs), Y(C("2.5"))>>
       [] k = "nbghs" -> <<tau, lam(2), beta(hs), disp, Y(Var(Nm("h", i)))>>
       [] k = "bern" -> <<beta(h("1.6")), B>>
       [] k = "bernhs" -> <<lam(2), tau, beta(hs), B>>
       [] k = "mu" -> <<RV(Nm("g", i), "normal", <<C("0.1"), h("1.2")>>, NoSize, <<>>, FALSE),
                        RV(y, "normal", <<Var(Nm("g", i)), C("0.9")>>, NoSize, <<>>, TRUE)>>
       [] OTHER -> <<RV(Nm("g", i), "lognormal", <<C("0.1"), h("0.7")>>, NoSize, <<>>, FALSE),
                     RV(y, "laplace", <<C("0.2"), Var(Nm("g", i))>>, NoSize, <<>>, TRUE)>>
\* the groups of variables that are updated by one specialised step
Steps(k, i) ==
  CASE k \in {"gp", "bb", "bnb"} -> {{Nm("z", i)}}
    [] k = "hs" -> {{Nm("l", i), Nm("t", i)}}
    [] k = "nb" \/ k = "bern" -> {{Nm("b", i)}}
    [] k = "nbg" -> {{Nm("b", i)}, {Nm("h", i)}}
    [] k = "nbhs" \/ k = "bernhs" -> {{Nm("l", i), Nm("t", i)}, {Nm("b", i)}}
    [] k = "nbghs" -> {{Nm("l", i), Nm("t", i)}, {Nm("b", i)}, {Nm("h", i)}}
    [] OTHER -> {}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Nodes == Cat([i \in DOMAIN parts |-> Part(parts, link, i)])
Groups == UNION {Steps(parts[i], i) : i \in DOMAIN parts}
Grads == {Nm("g", i) : i \in {j \in DOMAIN parts : IsGrad(parts[j])}}
Build == [inputs |-> IF \E i \in DOMAIN parts : IsReg(parts[i]) THEN <<[name |-> "X", sh |-> <<3, 2>>, what |-> "real"]>> ELSE <<>>,
          nodes |-> Nodes, must |-> UNION Groups, groups |-> Groups, grads |-> Grads]

Init == /\ parts \in Seqs /\ link \in {"none", "nuts"} /\ done = FALSE
        /\ (link = "nuts" => \E i \in DOMAIN parts : Above(parts, link, i) # 0 /\ parts[i] # "hs")
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<parts, link>>
        /\ PrintT("RESULT " \o ToJson([parts |-> parts, link |-> link, m |-> Build]))
\* the groups partition the unobserved variables that aren't left for gradients
Latent == {Nodes[i].name : i \in {j \in DOMAIN Nodes : ~ Nodes[j].obs}}
WellFormed == /\ UNION Groups \cup Grads = Latent
              /\ UNION Groups \cap Grads = {}
              /\ \A a, b \in Groups : a # b => a \cap b = {}
              /\ Cardinality({Nodes[i].name : i \in DOMAIN Nodes}) = Len(Nodes)
==============================================================================
