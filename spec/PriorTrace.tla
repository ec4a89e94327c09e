----------------------------- MODULE PriorTrace -----------------------------
(* Ancestral sampling.  A program that evaluates the variables of a model       *)
(* (samples of its prior, or the same model in another representation) yields    *)
(* rows of values; in every row each variable that is asked for, and each one    *)
(* that it depends on, is an independent draw from its distribution given the    *)
(* values that its parents have in the same row.                                  *)
(*                                                                                *)
(* A case has the model (its nodes also carry the shape sh of the variable), the  *)
(* inputs env, the names req that are asked for, the rows that were returned      *)
(* and all draws [dist, args, out, before, after] recorded in order.  A node with *)
(* dist "det" is a deterministic function of the others.  gens are the states of  *)
(* the variables' generators [name, before, after] around the program; fresh says *)
(* that the program updates them.                                                 *)
(*                                                                                *)
(* The draws of variables that are not returned aren't known: the behaviours of    *)
(* this module try all assignments, and a case conforms when one of them replays   *)
(* every row.  prog says how far a behaviour has come.                             *)
EXTENDS Kernels, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, r, k, env, used, lo, done
vars == <<c, r, k, env, used, lo, done>>
Case == Cases[c]

\* Points at which the law of a draw is compared to the distribution of a variable
PtsNat(x, j) == [sh |-> x.sh, d |-> NSeq([i \in 1..Len(x.d) |-> IF j = 1 THEN x.d[i] ELSE NOfInt((i + 3 * j) % 7)])]
PtOf(sup, x, j) == IF sup = "nat" THEN PtsNat(x, j) ELSE Pt(sup, x, j)
\* Distributions whose parameters are compared, not their densities
ByParams == {"multivariate_normal", "dirichlet", "categorical", "multinomial"}
SameNum(a, b) == IF NFinite(a) /\ NFinite(b) THEN NClose(a, b, "1e-9", "1e-8") ELSE a = b
\* Probabilities near 1 leave only the absolute difference of two mass functions
SameMass(a, b) == SameNum(a, b) \/ NClose(NExp(a), NExp(b), "0", "1e-9")
IsLaw(d, nd, e) ==
  /\ d.out.sh = nd.sh
  /\ IF nd.dist \in ByParams
     THEN /\ d.dist = nd.dist
          /\ LET ps == Params(nd, e) IN
             \A i \in DOMAIN ps : LET sh == BSh(ps[i].sh, d.args[i].sh)
                                  IN TClose(BTensor(ps[i], sh), BTensor(d.args[i], sh), "1e-9", "1e-12")
     ELSE /\ d.dist \in LawKnown
          /\ DrawShapeOk(d, d.out)
          /\ LET ps == Params(nd, e) IN
             /\ \A i \in DOMAIN ps : BTo(ps[i].sh, nd.sh)
             /\ Support(d.dist) = Support(nd.dist)
             /\ \A j \in 1..4 : LET x == PtOf(Support(nd.dist), d.out, j) IN
                \A i \in 1..Len(x.d) :
                   LET Same(a, b) == IF Support(nd.dist) = "nat" THEN SameMass(a, b) ELSE SameNum(a, b) IN
                   Same(ElemPdf(nd.dist, ps, x, i - 1),
                           LawPdf(d.dist, [p \in DOMAIN d.args |-> BGet(d.args[p], x.sh, i - 1)], x.d[i]))

RECURSIVE Up(_, _)
Up(m, S) == LET T == S \cup UNION {NodeDeps(m[i]) : i \in {j \in DOMAIN m : m[j].name \in S}}
            IN IF T = S THEN S ELSE Up(m, T)
Req(cs) == {cs.req[i] : i \in DOMAIN cs.req}
Needed(cs) == Up(cs.model, Req(cs))

Rows == Len(Case.rows)
PerRow == IF Rows = 0 THEN 0 ELSE (Len(Case.draws) + Rows - 1) \div Rows
\* A draw whose outcome is certain takes nothing from its generator
Consumes(d) == d.before # d.after
Cand(nd) == {i \in (lo + 1)..Len(Case.draws) :
               /\ i \notin used /\ i <= r * PerRow
               /\ \A j \in used : Consumes(Case.draws[j]) => Case.draws[j].before # Case.draws[i].before
               /\ nd.name \in Req(Case) => TEq(Case.draws[i].out, Case.rows[r][nd.name])
               /\ IsLaw(Case.draws[i], nd, env)}

GenErrs(cs) ==
  {"the generator of " \o cs.gens[i].name \o " is used although the variable isn't asked for" :
     i \in {j \in DOMAIN cs.gens : cs.gens[j].name \notin Needed(cs) /\ cs.gens[j].after # cs.gens[j].before}}
  \cup (IF ~ cs.fresh THEN {} ELSE
    {"the generator of " \o cs.gens[i].name \o " is left in a state that has been used" :
     i \in {j \in DOMAIN cs.gens : cs.gens[j].name \in Needed(cs) /\ Len(cs.rows) > 0
                                   /\ \E d \in DOMAIN cs.draws : Consumes(cs.draws[d]) /\ cs.draws[d].before = cs.gens[j].after}})
RowErrs(cs) == IF Len(cs.rows) = cs.nrows THEN {} ELSE {"the number of samples is wrong"}

Init == /\ c \in 1..Len(Cases) /\ r = 1 /\ k = 1 /\ env = Cases[c].env /\ used = {} /\ lo = 0 /\ done = FALSE

Nd == Case.model[k]
More == ~done /\ r <= Rows
Skip == /\ More /\ k <= Len(Case.model) /\ Nd.name \notin Needed(Case)
        /\ k' = k + 1 /\ UNCHANGED <<c, r, env, used, lo, done>>
Det == /\ More /\ k <= Len(Case.model) /\ Nd.name \in Needed(Case) /\ Nd.dist = "det"
       /\ LET v == Eval(Nd.args[1], env) IN
          /\ Nd.name \in Req(Case) => TClose(v, Case.rows[r][Nd.name], "1e-9", "1e-9")
          /\ env' = [x \in DOMAIN env \cup {Nd.name} |-> IF x = Nd.name THEN v ELSE env[x]]
       /\ k' = k + 1 /\ UNCHANGED <<c, r, used, lo, done>>
Draw == /\ More /\ k <= Len(Case.model) /\ Nd.name \in Needed(Case) /\ Nd.dist # "det"
        /\ \E i \in Cand(Nd) :
             /\ env' = [x \in DOMAIN env \cup {Nd.name} |-> IF x = Nd.name THEN Case.draws[i].out ELSE env[x]]
             /\ used' = used \cup {i}
        /\ k' = k + 1 /\ UNCHANGED <<c, r, lo, done>>
EndRow == /\ More /\ k > Len(Case.model)
          /\ r' = r + 1 /\ k' = 1 /\ env' = Case.env
          /\ lo' = r * PerRow
          /\ UNCHANGED <<c, used, done>>
Say(errs) == PrintT("RESULT " \o ToJson([id |-> Case.id, errs |-> errs, kfs |-> {}, prog |-> r * 1000 + k]))
Accept == /\ ~done /\ r > Rows
          /\ Say(GenErrs(Case) \cup RowErrs(Case) \cup
                 (IF \E i \in DOMAIN Case.draws : i \notin used THEN {"something is drawn that isn't a variable of the rows"} ELSE {}))
          /\ done' = TRUE /\ UNCHANGED <<c, r, k, env, used, lo>>
Stuck == /\ More /\ k <= Len(Case.model) /\ Nd.name \in Needed(Case)
         /\ IF Nd.dist = "det" THEN ~ ENABLED Det ELSE Cand(Nd) = {}
         /\ Say({"row " \o ToString(r) \o ": " \o Nd.name \o " is not a new draw from its distribution given its parents"})
         /\ done' = TRUE /\ UNCHANGED <<c, r, k, env, used, lo>>
Next == Skip \/ Det \/ Draw \/ EndRow \/ Accept \/ Stuck
=============================================================================
