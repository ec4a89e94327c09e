-------------------------------- MODULE Model --------------------------------
(* Probabilistic models and their meaning.  A model is a sequence of nodes     *)
(* [name, dist, args], args being expressions over the model's inputs and the  *)
(* nodes before it; an environment maps the names of inputs and nodes to       *)
(* tensors.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, Tensor, Dist

RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e.op = "var" -> env[e.n]
    [] e.op = "const" -> e.v
    [] e.op = "add" -> Map2(NAdd, Eval(e.a[1], env), Eval(e.a[2], env))
    [] e.op = "sub" -> Map2(NSub, Eval(e.a[1], env), Eval(e.a[2], env))
    [] e.op = "mul" -> Map2(NMul, Eval(e.a[1], env), Eval(e.a[2], env))
    [] e.op = "div" -> Map2(NDiv, Eval(e.a[1], env), Eval(e.a[2], env))
    [] e.op = "neg" -> Map1(NNeg, Eval(e.a[1], env))
    [] e.op = "exp" -> Map1(NExp, Eval(e.a[1], env))
    [] e.op = "log" -> Map1(NLog, Eval(e.a[1], env))
    [] e.op = "sqr" -> Map1(Sq, Eval(e.a[1], env))
    [] e.op = "sqrt" -> Map1(NSqrt, Eval(e.a[1], env))
    [] e.op = "abs" -> Map1(NAbs, Eval(e.a[1], env))
    [] e.op = "recip" -> LET f(x) == NDiv("1", x) IN Map1(f, Eval(e.a[1], env))
    [] e.op = "sigmoid" -> Map1(NSigmoid, Eval(e.a[1], env))
    [] e.op = "softplus" -> Map1(NSoftplus, Eval(e.a[1], env))
    [] e.op = "dot" -> Dot(Eval(e.a[1], env), Eval(e.a[2], env))
    [] e.op = "sum" -> TSum(Eval(e.a[1], env))
    [] e.op = "ds" -> DimShuffle(Eval(e.a[1], env), e.order)

\* The variables that an expression depends on
RECURSIVE Vars(_)
Vars(e) == IF e.op = "var" THEN {e.n} ELSE IF e.op = "const" THEN {} ELSE UNION {Vars(e.a[i]) : i \in DOMAIN e.a}

NodeIdx(m, v) == CHOOSE i \in DOMAIN m : m[i].name = v
Node(m, v) == m[NodeIdx(m, v)]
Names(m) == {m[i].name : i \in DOMAIN m}
NodeDeps(nd) == UNION {Vars(nd.args[i]) : i \in DOMAIN nd.args}
Children(m, v) == {m[i].name : i \in {j \in DOMAIN m : v \in NodeDeps(m[j])}}

\* The parameters of node nd
Params(nd, env) == NSeq([i \in DOMAIN nd.args |-> Eval(nd.args[i], env)])
ElemPdf(dist, ps, val, k) == LogPdf(dist, [i \in DOMAIN ps |-> BGet(ps[i], val.sh, k)], val.d[k + 1])
\* Distributions of vectors: the last dimension is that of the vector
LastOf(s) == s[Len(s)]
RowOf(t, sh, r, n) == NSeq([j \in 1..n |-> BGet(t, sh, (r - 1) * n + j - 1)])
DirichletL(a, x) ==
  IF \E i \in DOMAIN x : NLe(x[i], "0") THEN "-inf"
  ELSE NSum(<<NLgamma(NSum(a)), NNeg(NSum([i \in DOMAIN a |-> NLgamma(a[i])])),
              NSum([i \in DOMAIN a |-> NMul(NSub(a[i], "1"), NLog(x[i]))])>>)
MultinomialL(n, p, x) ==
  IF ~ NEq(NSum(x), n) THEN "-inf"
  ELSE NSum(<<NLgamma(NAdd(n, "1")), NNeg(NSum([i \in DOMAIN x |-> NLgamma(NAdd(x[i], "1"))])),
              NSum([i \in DOMAIN x |-> XLogY(x[i], p[i])])>>)
\* log det A and x' A^-1 x of a positive definite matrix, a sequence of rows: eliminate the first unknown
RECURSIVE QuadDet(_, _)
QuadDet(A, x) ==
  LET a == A[1][1] n == Len(x)
      B == NSeq([i \in 1..(n - 1) |-> NSeq([j \in 1..(n - 1) |-> NSub(A[i + 1][j + 1], NDiv(NMul(A[i + 1][1], A[1][j + 1]), a))])])
      y == NSeq([i \in 1..(n - 1) |-> NSub(x[i + 1], NMul(NDiv(A[i + 1][1], a), x[1]))])
      q == NDiv(Sq(x[1]), a)
  IN IF n = 1 THEN [q |-> q, ld |-> NLog(a)]
     ELSE LET r == QuadDet(B, y) IN [q |-> NAdd(q, r.q), ld |-> NAdd(NLog(a), r.ld)]
MvNormalL(m, S, x) ==
  LET n == Len(x)
      r == QuadDet([i \in 1..n |-> Row(S, i)], NSeq([i \in 1..n |-> NSub(x[i], m[i])]))
  IN NNeg(NMul(Half, NSum(<<NMul(NOfInt(n), Log2Pi), r.ld, r.q>>)))
VecDists == {"dirichlet", "multinomial", "multivariate_normal"}
VecPdf(dist, ps, val) ==
  LET n == LastOf(val.sh) rows == Len(val.d) \div n
      x(r) == NSeq([j \in 1..n |-> val.d[(r - 1) * n + j]])
  IN CASE dist = "dirichlet" -> NSum([r \in 1..rows |-> DirichletL(RowOf(ps[1], val.sh, r, n), x(r))])
       [] dist = "multinomial" -> NSum([r \in 1..rows |-> MultinomialL(BGet(ps[1], SubSeq(val.sh, 1, Len(val.sh) - 1), r - 1),
                                                                      RowOf(ps[2], val.sh, r, n), x(r))])
       [] OTHER -> NSum([r \in 1..rows |-> MvNormalL(RowOf(ps[1], val.sh, r, n), ps[2], x(r))])
\* the probabilities of a categorical variable are along the last dimension of its parameter
CategoricalL(p, val, k) ==
  LET n == LastOf(p.sh) x == val.d[k + 1]
  IN IF ~ IsNat(x) \/ NLe(NOfInt(n), x) THEN "-inf" ELSE NLog(BGet(p, val.sh \o <<n>>, k * n + NToInt(x)))
NodePdf(nd, env) ==
  LET ps == Params(nd, env) val == env[nd.name]
  IN IF nd.dist \in VecDists THEN VecPdf(nd.dist, ps, val)
     ELSE IF nd.dist = "categorical" THEN NSum([k \in 1..Len(val.d) |-> CategoricalL(ps[1], val, k - 1)])
     ELSE NSum([k \in 1..Len(val.d) |-> ElemPdf(nd.dist, ps, val, k - 1)])
\* The logarithm of the joint density of the model
LogJoint(m, env) == NSum([i \in DOMAIN m |-> NodePdf(m[i], env)])
\* ... and the part of it that depends on v
LogBlanket(m, v, env) ==
  LET S == {i \in DOMAIN m : m[i].name = v \/ v \in NodeDeps(m[i])}
  IN NSum([i \in DOMAIN m |-> IF i \in S THEN NodePdf(m[i], env) ELSE "0"])

\* The logarithm of the density of a recorded draw's distribution at the tensor x
DrawPdf(dr, x) ==
  NSum([k \in 1..Len(x.d) |-> LawPdf(dr.dist, [i \in DOMAIN dr.args |-> BGet(dr.args[i], x.sh, k - 1)], x.d[k])])
DrawShapeOk(dr, x) == \A i \in DOMAIN dr.args : BTo(dr.args[i].sh, x.sh)
==============================================================================
