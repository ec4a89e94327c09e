----------------------------- MODULE PGRequests -----------------------------
(* Requests for Polya-Gamma variables: the shapes of the parameters h and z, how *)
(* they are given, the size, the kind of generator and of floating point number.  *)
(* The module enumerates them with the shape and the type that the result has.    *)
EXTENDS Tensor, FiniteSets, TLC, Json
VARIABLES d, done

Shapes == {<<>>, <<3>>, <<1>>, <<2, 3>>, <<2, 1>>, <<1, 3>>}
NoSize == <<-1>>
Space == {x \in [hs: Shapes, zs: Shapes, give: {"pos", "kw", "only-h", "only-z", "none"}, size: {"none", "own", "more", "more2"},
                 kind: {"const", "input", "rv", "int"}, rng: {"Generator", "RandomState"}, how: {"stream", "op"}, float: {"float64", "float32"}] :
            /\ BOk(x.hs, x.zs)
            /\ (x.give \in {"only-z", "none"} => x.hs = <<>>)
            /\ (x.give \in {"only-h", "none"} => x.zs = <<>>)
            /\ (x.give = "none" => x.kind = "const")
            \* the other choices are varied one at a time
            /\ Cardinality({f \in {1, 2, 3, 4} : \/ (f = 1 /\ x.give \notin {"pos", "none"}) \/ (f = 2 /\ x.kind # "const")
                              \/ (f = 3 /\ x.rng # "Generator") \/ (f = 4 /\ x.float # "float64")}) <= 1}
Own(x) == BSh(x.hs, x.zs)
Size(x) == CASE x.size = "none" -> NoSize [] x.size = "own" -> Own(x)
             [] x.size = "more" -> <<4>> \o Own(x) [] OTHER -> <<2, 1>> \o Own(x)
Expected(x) == IF x.size = "none" THEN Own(x) ELSE Size(x)

Init == d \in Space /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ d' = d
        /\ PrintT("RESULT " \o ToJson([desc |-> d, size |-> Size(d), sh |-> Expected(d)]))
WellFormed == BTo(d.hs, Expected(d)) /\ BTo(d.zs, Expected(d))
=============================================================================
