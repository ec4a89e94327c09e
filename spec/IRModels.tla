------------------------------ MODULE IRModels ------------------------------
(* Models whose observations depend on two random variables a and b through an *)
(* elementwise operation with transposed and broadcast arguments, in every       *)
(* combination of shapes and dimension orders that broadcasts.  The rewrites     *)
(* that bring models to their internal form replace exactly such expressions.    *)
EXTENDS Tensor, FiniteSets, TLC, Json

VARIABLES d, done
Var(n) == [op |-> "var", n |-> n]
C(x) == [op |-> "const", v |-> [sh |-> <<>>, d |-> <<x>>]]
CT(sh) == [op |-> "const", v |-> [sh |-> sh, d |-> [i \in 1..Prod(sh) |-> NOfInt(i + 1)]]]
F1(o, a) == [op |-> o, a |-> <<a>>]
F2(o, a, b) == [op |-> o, a |-> <<a, b>>]
DS(a, ord) == IF ord = <<-9>> THEN a ELSE [op |-> "ds", a |-> <<a>>, order |-> ord]
RV(name, dist, args, size, sh, obs) == [name |-> name, dist |-> dist, args |-> args, size |-> size, sh |-> sh, obs |-> obs]
Sz(sh) == IF sh = <<>> THEN <<-1>> ELSE sh
\* -9: no dimshuffle
Orders(sh) == CASE Len(sh) = 0 -> {<<-9>>, <<-1>>, <<-1, -1>>}
                [] Len(sh) = 1 -> {<<-9>>, <<-1, 0>>, <<0, -1>>, <<-1, 0, -1>>}
                [] OTHER -> {<<-9>>, <<1, 0>>, <<-1, 1, 0>>, <<0, -1, 1>>}
OSh(sh, ord) == IF ord = <<-9>> THEN sh ELSE [i \in 1..Len(ord) |-> IF ord[i] < 0 THEN 1 ELSE sh[ord[i] + 1]]
Shapes == {<<>>, <<2>>, <<3, 2>>, <<2, 2>>, <<1, 2>>}

Space == {x \in [sa: Shapes, sb: Shapes, op: {"add", "mul", "sub", "div"}, konst: {"none", "scalar", "left", "vec"},
                 tail: {"none", "neg", "exp", "again", "two"}, oa: UNION {Orders(s) : s \in Shapes}, ob: UNION {Orders(s) : s \in Shapes}] :
            /\ x.oa \in Orders(x.sa) /\ x.ob \in Orders(x.sb)
            /\ BOk(OSh(x.sa, x.oa), OSh(x.sb, x.ob))
            /\ (x.konst = "vec" => BOk(BSh(OSh(x.sa, x.oa), OSh(x.sb, x.ob)), <<2>>))
            \* the other choices matter for some operations only
            /\ (x.konst # "none" => x.op \in {"add", "mul"} /\ x.tail \in {"none", "two"})
            /\ (x.tail # "none" => x.konst # "none" \/ x.op \in {"mul", "div"})}
Build(x) ==
  LET a == RV("a", "gamma", <<C("2"), C("1.5")>>, Sz(x.sa), x.sa, FALSE)
      b == RV("b", "lognormal", <<C("0.2"), C("0.5")>>, Sz(x.sb), x.sb, FALSE)
      A == DS(Var("a"), x.oa)  B == DS(Var("b"), x.ob)
      e0 == CASE x.konst = "none" -> F2(x.op, A, B)
              [] x.konst = "scalar" -> F2(x.op, F2(x.op, A, C("1.7")), B)
              [] x.konst = "left" -> F2(x.op, C("0.3"), F2(x.op, A, B))
              [] OTHER -> F2(x.op, F2(x.op, A, B), CT(<<2>>))
      sh0 == BSh(OSh(x.sa, x.oa), OSh(x.sb, x.ob))
      sh1 == IF x.konst = "vec" THEN BSh(sh0, <<2>>) ELSE sh0
      e == CASE x.tail = "neg" -> F1("neg", e0) [] x.tail = "exp" -> F1("exp", F2("mul", C("-0.1"), e0))
             [] x.tail = "again" -> F2("sub", e0, A) [] OTHER -> e0
      Y == RV("Y", "normal", <<e, C("1")>>, <<-1>>, sh1, TRUE)
      Z == RV("Z", "laplace", <<C("0"), F2("add", e0, C("0.5"))>>, <<-1>>, sh1, TRUE)
  IN [inputs |-> <<>>, nodes |-> <<a, b, Y>> \o (IF x.tail = "two" THEN <<Z>> ELSE <<>>), must |-> {}]

Init == d \in Space /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ d' = d
        /\ PrintT("RESULT " \o ToJson([desc |-> d, m |-> Build(d)]))
WellFormed == LET b == Build(d) IN \A i \in DOMAIN b.nodes : b.nodes[i].size = <<-1>> \/ b.nodes[i].size = b.nodes[i].sh
=============================================================================
