----------------------------- MODULE SamplerTrace -----------------------------
(* Conformance of recorded sampler iterations to the specification of a sampler: *)
(* one iteration is a scan over the stages of the sampler, in their order; each  *)
(* stage updates its variables by a step that is right (Kernels) in the          *)
(* environment that the stages before it left behind.                            *)
(*                                                                                *)
(* The cases are read from the JSON file named by the environment variable        *)
(* CASES; each is a model, the values of everything before the iteration, the     *)
(* sampler's stages, the values that the iteration returned, and the draws (and   *)
(* probes) recorded while the real code performed it.  A behaviour of this module *)
(* replays one case; its verdict is printed at the end.                           *)
EXTENDS Kernels, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c, k, env, errs, kfs
vars == <<c, k, env, errs, kfs>>

Case == Cases[c]
Latents(cs) == Names(cs.model) \ {cs.obs[i] : i \in DOMAIN cs.obs}

\* Every latent variable is updated by exactly one stage
StagesErrs(cs) ==
  LET st == cs.stages
      all == UNION {{st[i].vars[j] : j \in DOMAIN st[i].vars} : i \in DOMAIN st}
      cnt(v) == Cardinality({<<i, j>> \in UNION {{i} \X DOMAIN st[i].vars : i \in DOMAIN st} : st[i].vars[j] = v})
  IN (IF all = Latents(cs) THEN {} ELSE {"the sampler does not update exactly the unobserved variables"})
     \cup (IF \A v \in all : cnt(v) = 1 THEN {} ELSE {"a variable is updated by more than one stage"})

\* The variables that need a specialised step (must) have one
MustErrs(cs) == {"no specialised step for " \o cs.must[i] : i \in {j \in DOMAIN cs.must : cs.kinds[cs.must[j]] # "gibbs"}}

\* The child of v that is a (logistic) observation model
OnlyChild(m, v) == CHOOSE x \in Children(m, v) : TRUE

\* Which oracle applies to a stage that isn't NUTS follows from the model alone
Role(m, st) ==
  IF st.kind = "nuts" THEN "nuts"
  ELSE IF st.kind = "crt" THEN "crt"
  ELSE IF \A i \in DOMAIN st.vars : Node(m, st.vars[i]).dist = "halfcauchy" THEN "horseshoe"
  ELSE IF Node(m, st.vars[1]).dist = "normal" THEN "regression"
  ELSE IF Node(m, st.vars[1]).dist = "gamma" /\ Children(m, st.vars[1]) # {} /\ Node(m, OnlyChild(m, st.vars[1])).dist = "nbinom"
       THEN "dispersion"
  ELSE "conj"

Out(cs, v) == cs.outs[v]
After(cs, st, e) == [x \in DOMAIN e |-> IF \E i \in DOMAIN st.vars : st.vars[i] = x THEN Out(cs, x) ELSE e[x]]

\* [errs, kfs] of stage st in the environment e
Verdict(cs, st, e) ==
  LET m == cs.model r == Role(m, st) v == st.vars[1] ds == cs.draws
      bad == {st.vars[i] : i \in {j \in DOMAIN st.vars : ~ TFinite(Out(cs, st.vars[j]))}}
      res(er, kf) == IF er = {} THEN [errs |-> {}, kfs |-> {}]
                     ELSE IF kf # {} /\ cs.known THEN [errs |-> {}, kfs |-> kf] ELSE [errs |-> er, kfs |-> {}]
  IN IF bad # {} THEN [errs |-> {x \o " is not finite" : x \in bad}, kfs |-> {}]
     ELSE CASE r = "nuts" -> res(Nuts(m, st.vars, e, After(cs, st, e), cs.nuts), {})
            [] r = "horseshoe" ->
                 \* the local parameter is the one that isn't a single value for the vector
                 IF Len(st.vars) # 2 THEN [errs |-> {"a horseshoe step must update two variables"}, kfs |-> {}]
                 ELSE LET bv == OnlyChild(m, v)
                          tl == CHOOSE i \in {1, 2} : Len(e[st.vars[i]].d) = 1 /\ (Len(e[st.vars[i]].sh) = 0 \/ Len(e[st.vars[3 - i]].sh) = 1)
                      IN res(Horseshoe(m, bv, st.vars[3 - tl], st.vars[tl], e, Out(cs, st.vars[3 - tl]), Out(cs, st.vars[tl]), ds), {})
            [] r = "regression" -> res(Regression(m, v, OnlyChild(m, v), e, Out(cs, v), cs.probe[v], ds), {})
            [] r = "dispersion" ->
                 LET er == Dispersion(m, v, OnlyChild(m, v), e, Out(cs, v), ds)
                 IN res(er, IF er # {} /\ KF1(m, v, OnlyChild(m, v), e, Out(cs, v), ds) THEN {"KF1"} ELSE {})
            [] r = "crt" -> res(Crt(e["y"], e["h"].d[1], Out(cs, v), ds), {})
            [] r = "conj" ->
                 LET er == Conj(m, v, e, Out(cs, v), ds)
                 IN res(er, IF er # {} /\ KF2(m, v, e, Out(cs, v), ds) THEN {"KF2"} ELSE {})

Init == /\ c \in 1..Len(Cases)
        /\ k = 1
        /\ env = Cases[c].env
        /\ errs = StagesErrs(Cases[c]) \cup MustErrs(Cases[c])
        /\ kfs = {}

Stage == /\ k <= Len(Case.stages)
         /\ LET st == Case.stages[k] ver == Verdict(Case, st, env) IN
            /\ errs' = errs \cup ver.errs
            /\ kfs' = kfs \cup ver.kfs
            /\ env' = After(Case, st, env)
         /\ k' = k + 1
         /\ UNCHANGED c

Report == /\ k = Len(Case.stages) + 1
          /\ PrintT("RESULT " \o ToJson([id |-> Case.id, errs |-> errs, kfs |-> kfs]))
          /\ k' = k + 1
          /\ UNCHANGED <<c, env, errs, kfs>>

Next == Stage \/ Report
Spec == Init /\ [][Next]_vars
===============================================================================
