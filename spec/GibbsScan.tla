------------------------------ MODULE GibbsScan ------------------------------
(* Why a sampler is judged stage by stage, each in the environment left by the   *)
(* stages before it (SamplerTrace): for every joint distribution of K binary     *)
(* variables with weights 1..W and every way to arrange them in stages, an       *)
(* iteration that updates every variable exactly once, each stage from its       *)
(* conditional given the latest values, leaves the joint invariant.  The faulty  *)
(* plans don't, except for special joints:                                       *)
(*   stale:  stages see the values from before the iteration;                    *)
(*   skewed: a stage conditions on a variable's next value instead of its own    *)
(*           last one in half of the cases (a transposed conditional);            *)
(*   blind:  the last stage ignores the other variables (it draws from its        *)
(*           marginal).                                                           *)
(* mu is the distribution of (values before the iteration, values now).          *)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, W
VARIABLES w, plan, mode, i, mu
vars == <<w, plan, mode, i, mu>>
V == 1..K
X == [V -> {0, 1}]
Modes == {"serial", "stale", "skewed", "blind"}
\* ordered partitions of V, as the index of each variable's stage
Plans == {p \in [V -> 1..K] : \E n \in V : {p[v] : v \in V} = 1..n}
Stages(p) == CHOOSE n \in V : {p[v] : v \in V} = 1..n
RECURSIVE SumW(_, _)
SumW(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumW(f, S \ {x})
Agree(x, y, S) == \A v \in S : x[v] = y[v]
Flip(x) == [v \in V |-> 1 - x[v]]
\* probability that block B becomes what it is in y, given what g has outside of it
Cond(f, B, y, g) == NDiv(NOfInt(f[[v \in V |-> IF v \in B THEN y[v] ELSE g[v]]]),
                         NOfInt(SumW(f, {x \in X : Agree(x, g, V \ B)})))
Marg(f, B, y) == NDiv(NOfInt(SumW(f, {x \in X : Agree(x, y, B)})), NOfInt(SumW(f, X)))
Block(p, n) == {v \in V : p[v] = n}
RECURSIVE SumN(_, _)
SumN(f, S) == IF S = {} THEN "0" ELSE LET x == CHOOSE x \in S : TRUE IN NAdd(f[x], SumN(f, S \ {x}))
\* the distribution of (before, now) after a stage
Push(f, B, m, last) ==
  [p \in X \X X |->
     LET before == p[1] y == p[2]
         \* the values now that can become y
         from == {x \in X : Agree(x, y, V \ B)}
         k(x) == CASE mode = "stale" -> Cond(f, B, y, before)
                   [] mode = "skewed" -> Cond(f, B, IF last THEN Flip(y) ELSE y, x)
                   [] mode = "blind" /\ last -> Marg(f, B, y)
                   [] OTHER -> Cond(f, B, y, x)
     IN SumN([x \in from |-> NMul(m[<<before, x>>], k(x))], from)]
Init == /\ w \in [X -> 1..W] /\ plan \in Plans /\ mode \in Modes /\ i = 1
        /\ mu = [p \in X \X X |-> IF p[1] = p[2] THEN NDiv(NOfInt(w[p[1]]), NOfInt(SumW(w, X))) ELSE "0"]
Stage == /\ i <= Stages(plan)
         /\ mu' = Push(w, Block(plan, i), mu, i = Stages(plan))
         /\ i' = i + 1 /\ UNCHANGED <<w, plan, mode>>
Now(y) == SumN([p \in {q \in X \X X : q[2] = y} |-> mu[p]], {q \in X \X X : q[2] = y})
Stationary == \A y \in X : NClose(Now(y), NDiv(NOfInt(w[y]), NOfInt(SumW(w, X))), "1e-25", "1e-25")
Report == /\ i = Stages(plan) + 1 /\ i' = i + 1 /\ UNCHANGED <<w, plan, mode, mu>>
          /\ PrintT("RESULT " \o ToJson([mode |-> mode, plan |-> plan, stationary |-> Stationary]))
Next == Stage \/ Report
Conserved == NClose(SumN(mu, X \X X), "1", "1e-25", "0")
SerialIsInvariant == (mode = "serial" /\ i > Stages(plan)) => Stationary
\* stronger: the joint is invariant after every stage, not only after the last one
EachStageIsInvariant == mode = "serial" => Stationary
==============================================================================
