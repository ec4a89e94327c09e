---------------------------- MODULE SamplerShape ----------------------------
(* What a constructed sampler is made of, as opposed to what its steps compute.  *)
(* A sampler for a model (nodes with the variables deps they depend on) and       *)
(* observations obs is a map from variables to steps, one of initial values,       *)
(* stages and parameters.  The history of its iterations goes through vals, the    *)
(* types and shapes of the variables' values before each call; nuts are the        *)
(* arguments that the gradient-based kernel was given in each call.                *)
EXTENDS Integers, Sequences, FiniteSets, Num, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, errs
vars == <<c, i, errs>>
Case == Cases[c]
Range(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Up(_, _)
Up(m, S) == LET T == S \cup UNION {Range(m[k].deps) : k \in {j \in DOMAIN m : m[j].name \in S}}
            IN IF T = S THEN S ELSE Up(m, T)
NodeNames(m) == {m[k].name : k \in DOMAIN m}
Latent(cs) == (Up(cs.nodes, Range(cs.obs)) \cap NodeNames(cs.nodes)) \ Range(cs.obs)
NoDup(s) == Cardinality(Range(s)) = Len(s)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
First(s, S) == CHOOSE k \in DOMAIN s : s[k] \in S /\ \A j \in DOMAIN s : s[j] \in S => k <= j

KeyErrs(cs) ==
  (IF NoDup(cs.steps) /\ Range(cs.steps) = Latent(cs) THEN {} ELSE {"the steps are not those of the unobserved variables"})
  \cup (IF NoDup(cs.inits) /\ Range(cs.inits) = Latent(cs) THEN {} ELSE {"the initial values are not those of the unobserved variables"})
TypeErrs(cs) == UNION {
  LET t == cs.types[k] IN
  (IF t.init = t.rv THEN {} ELSE {"the initial value of " \o t.name \o " has another type"})
  \cup (IF t.step = t.rv THEN {} ELSE {"the step of " \o t.name \o " has another type"}) : k \in DOMAIN cs.types}
\* stages partition the steps and are ordered like them; the gradient-based one is single and last
StageErrs(cs) ==
  LET ns == {k \in DOMAIN cs.stages : cs.stages[k].kind = "nuts"}
      vs == [k \in DOMAIN cs.stages |-> cs.stages[k].vars] IN
  (IF NoDup(Cat(vs)) /\ Range(Cat(vs)) = Range(cs.steps) THEN {} ELSE {"the stages don't partition the variables"})
  \cup (IF \A a, b \in DOMAIN cs.stages : a < b /\ vs[a] # <<>> /\ vs[b] # <<>> =>
             First(cs.steps, Range(vs[a])) < First(cs.steps, Range(vs[b])) THEN {} ELSE {"the stages are not in scan order"})
  \cup (IF \A a \in DOMAIN cs.stages : vs[a] = SelectSeq(cs.steps, LAMBDA v : v \in Range(vs[a]))
      THEN {} ELSE {"the variables of a stage are not in scan order"})
  \cup (IF Cardinality(ns) <= 1 /\ \A k \in ns : k = Len(cs.stages) THEN {} ELSE {"the gradient-based step is not a single last one"})
  \cup (IF \A k \in DOMAIN cs.stages : cs.stages[k].key = cs.stages[k].kernel THEN {} ELSE {"a stage's key is not its kernel"})
  \cup (IF ns = {} THEN (IF cs.params = <<>> THEN {} ELSE {"there are parameters without a step that needs them"})
        ELSE IF /\ Len(cs.params) = 1 /\ cs.params[1].key = "nuts"
                /\ cs.params[1].ndims = <<0, 1>> THEN {} ELSE {"the parameters are not a step size and an inverse mass matrix"})
SelfErrs(cs) ==
  (IF cs.needs = <<>> THEN {} ELSE {"an iteration depends on something that can't be given"})
  \cup (IF cs.own = <<>> THEN {} ELSE {"an iteration draws a variable of the model from its prior"})

Init == /\ c \in 1..Len(Cases) /\ i = 1
        /\ errs = LET cs == Cases[c] IN KeyErrs(cs) \cup TypeErrs(cs) \cup StageErrs(cs) \cup SelfErrs(cs)
Iterate == /\ i <= Len(Case.calls)
           /\ LET k == Case.calls[i] IN errs' = errs
                \cup (IF k.before = k.after THEN {} ELSE {"the values of an iteration have other types or shapes"})
                \cup UNION {LET u == k.nuts[j] IN
                       (IF u.step = u.stepin THEN {} ELSE {"the kernel is not given the step size"})
                       \cup (IF u.mass = u.massin THEN {} ELSE {"the kernel is not given the inverse mass matrix"})
                       \cup (IF Len(u.q) = u.dims THEN {} ELSE {"the kernel's position has another dimension"})
                       \cup (IF NFinite(u.pe) /\ NClose(u.pe, NNeg(u.lf), "1e-4", "1e-6") THEN {} ELSE {"the kernel's initial potential energy is not that of its position"})
                       \cup (IF u.g = u.q THEN {} ELSE {"the kernel's initial gradient is not that of its position"}) : j \in DOMAIN k.nuts}
           /\ i' = i + 1 /\ UNCHANGED c
Report == /\ i = Len(Case.calls) + 1
          /\ PrintT("RESULT " \o ToJson([id |-> Case.id, errs |-> errs, kfs |-> {}]))
          /\ i' = i + 1 /\ UNCHANGED <<c, errs>>
Next == Iterate \/ Report
=============================================================================
