-------------------------------- MODULE Dags --------------------------------
(* All models of N random variables, each with any set of earlier variables as   *)
(* its parents, and any set of them observed.  needed are the variables that the  *)
(* observations depend on; a sampler is for those that aren't observed.           *)
EXTENDS Tensor, FiniteSets, TLC, Json
CONSTANT N
VARIABLES d, done

Var(n) == [op |-> "var", n |-> n]
C(x) == [op |-> "const", v |-> [sh |-> <<>>, d |-> <<x>>]]
F1(o, a) == [op |-> o, a |-> <<a>>]
F2(o, a, b) == [op |-> o, a |-> <<a, b>>]
Nm(i) == "x" \o ToString(i)
Flavours == {"normal", "mixed", "vector"}
Space == {x \in [ps: [1..N -> SUBSET (1..(N - 1))], obs: SUBSET (1..N) \ {{}}, fl: Flavours] :
            \A i \in 1..N : \A j \in x.ps[i] : j < i}
RECURSIVE SumOf(_, _)
SumOf(S, base) == IF S = {} THEN base ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN SumOf(S \ {i}, F2("add", base, Var(Nm(i))))
\* the mean of a variable is a function of its parents
Mean(x, i) == IF x.ps[i] = {} THEN C("0.2") ELSE
   LET f == CHOOSE f \in x.ps[i] : \A j \in x.ps[i] : f <= j IN SumOf(x.ps[i] \ {f}, Var(Nm(f)))
Pos(x, i) == IF x.ps[i] = {} THEN C("1.4") ELSE F1("exp", F2("mul", C("0.3"), Mean(x, i)))
Node(x, i) ==
  LET vec == x.fl = "vector"  sh == IF vec THEN <<2>> ELSE <<>>
      size == IF vec THEN <<2>> ELSE <<-1>>
      RV(dist, args) == [name |-> Nm(i), dist |-> dist, args |-> args, size |-> size, sh |-> sh, obs |-> i \in x.obs]
  IN IF x.fl = "normal" THEN RV("normal", <<Mean(x, i), C("1.3")>>)
     ELSE CASE i % 4 = 1 -> RV("gamma", <<C("2"), Pos(x, i)>>)
            [] i % 4 = 2 -> RV("beta", <<C("1.5"), Pos(x, i)>>)
            [] i % 4 = 3 -> RV("normal", <<Mean(x, i), C("0.8")>>)
            [] OTHER -> RV("laplace", <<Mean(x, i), C("0.7")>>)
RECURSIVE Up(_, _)
Up(x, S) == LET T == S \cup UNION {x.ps[i] : i \in S} IN IF T = S THEN S ELSE Up(x, T)
Needed(x) == Up(x, x.obs)
Build(x) == [inputs |-> <<>>, nodes |-> [i \in 1..N |-> Node(x, i)],
             extra |-> {Nm(i) : i \in (1..N) \ Needed(x)}]
Init == d \in Space /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ d' = d
        /\ PrintT("RESULT " \o ToJson([ps |-> d.ps, obs |-> d.obs, fl |-> d.fl, m |-> Build(d)]))
WellFormed == /\ d.obs \subseteq Needed(d)
              /\ \A i \in Needed(d) : d.ps[i] \subseteq Needed(d)
=============================================================================
