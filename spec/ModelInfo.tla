------------------------------ MODULE ModelInfo ------------------------------
(* The description of a model (ModelInfo): which descriptions are accepted, and *)
(* the maps that an accepted one has.  Variables are identified by what they     *)
(* are: the random variables R1..R3, their values V1..V3 and a deterministic      *)
(* variables D1..D3; naming gives their names ("" stands for none).  The module         *)
(* enumerates descriptions and what is expected of them; every one is given to    *)
(* the real class.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxDev   \* how many variables may have a name other than their own
VARIABLES d, done

RVs == {"R1", "R2", "R3"}
Dets == {"D1", "D2", "D3"}
Vars == RVs \cup {"V1", "V2", "V3"} \cup Dets
Val(r) == CASE r = "R1" -> "V1" [] r = "R2" -> "V2" [] OTHER -> "V3"
Orders(S) == {s \in UNION {[1..n -> S] : n \in 0..Cardinality(S)} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Range(s) == {s[i] : i \in DOMAIN s}

\* keys: the keys of the map from random variables to values, in order
Namings == {f \in UNION {{[v \in Vars |-> IF v \in S THEN g[v] ELSE "own"] : g \in [S -> {"", "R1", "D1"}]} : S \in {T \in SUBSET Vars : Cardinality(T) <= MaxDev}} :
              \A v \in Vars : f[v] # v}
Space == {x \in [keys: Orders(RVs), obs: Orders({"R1", "R2"}), dets: {<<>>, <<"D1">>, <<"R1">>, <<"D1", "V2">>}, naming: Namings] :
            \A v \in {"D2", "D3"} : x.naming[v] = "own"}
         \* longer ones
         \cup [keys: {<<"R2", "R1", "R3">>, <<"R3", "R1">>}, obs: Orders(RVs), dets: {<<"D1", "D2", "D3">>, <<"D3", "V2", "D2", "R1">>}, naming: Namings]
NameOf(x, v) == IF x.naming[v] = "own" THEN v ELSE x.naming[v]

Tracked(x) == Range(x.keys) \cup Range(x.obs) \cup Range(x.dets) \cup {Val(r) : r \in Range(x.keys)}
\* What is wrong with a description; it is accepted when nothing is
Faults(x) ==
  (IF \E r \in Range(x.obs) : r \notin Range(x.keys) THEN {"missing"} ELSE {})
  \cup (IF \E v \in Tracked(x) : NameOf(x, v) = "" THEN {"unnamed"} ELSE {})
  \cup (IF \E v, w \in Tracked(x) : v # w /\ NameOf(x, v) = NameOf(x, w) THEN {"duplicate"} ELSE {})
MapSeq(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
RECURSIVE Keep(_, _)
Keep(s, S) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in S THEN <<Head(s)>> ELSE <<>>) \o Keep(Tail(s), S)
Unobs(x) == Keep(x.keys, RVs \ Range(x.obs))
Expected(x) ==
  LET un == Unobs(x) IN
  [faults |-> Faults(x),
   observed_rvs |-> x.obs, unobserved_rvs |-> un,
   observed_values |-> MapSeq(Val, x.obs), unobserved_values |-> MapSeq(Val, un),
   deterministic_vars |-> x.dets,
   values_to_rvs |-> {<<Val(r), r>> : r \in Range(x.keys)},
   names_to_vars |-> {<<NameOf(x, v), v>> : v \in Tracked(x)}]

Init == d \in Space /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ d' = d
        /\ PrintT("RESULT " \o ToJson([desc |-> d, want |-> Expected(d)]))
\* What the maps have to satisfy whatever the description
Consistent == LET e == Expected(d) IN
  e.faults = {} =>
    /\ Range(e.observed_rvs) \cup Range(e.unobserved_rvs) = Range(d.keys)
    /\ Range(e.observed_rvs) \cap Range(e.unobserved_rvs) = {}
    /\ Cardinality({p[1] : p \in e.names_to_vars}) = Cardinality(e.names_to_vars)
    /\ {p[2] : p \in e.names_to_vars} = Tracked(d)
    /\ Cardinality(e.values_to_rvs) = Len(d.keys)
==============================================================================
