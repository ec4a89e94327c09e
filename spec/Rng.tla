--------------------------------- MODULE Rng ---------------------------------
(* Generators.  A generator is used in a linear way: every random draw consumes *)
(* the current state of a generator and leaves a new one, and no state is ever   *)
(* consumed by two different draws, neither within a call nor by later calls, be *)
(* it in the same sampler or in others made from the same stream.  (Evaluating   *)
(* the very same draw twice within a call yields the same value and is harmless.) *)
(*                                                                                *)
(* A case is a history of calls; each is the sequence of its draws                *)
(* [before, after, sig, n] (the generator's state before and after, a signature   *)
(* of the distribution, parameters and result, and the number of elements) and    *)
(* the states of all shared generators of the function after the call.            *)
(* runs are the results of the same program in other processes: equal seeds have  *)
(* to give equal results, and other seeds other ones.                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, j, used, mine, errs
vars == <<c, i, j, used, mine, errs>>
Case == Cases[c]
Call == Case.calls[i]

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ j = 1
        /\ used = {}   \* the states consumed by previous calls
        /\ mine = {}   \* <<state, signature>> of the draws of this call
        /\ errs = LET r == Cases[c].runs IN
             (IF \A x, y \in DOMAIN r : r[x].seed = r[y].seed => r[x].res = r[y].res THEN {}
              ELSE {"equal seeds give different results"})
             \cup (IF \A x, y \in DOMAIN r : r[x].seed # r[y].seed => r[x].res # r[y].res THEN {}
                   ELSE {"different seeds give equal results"})

Draw == /\ i <= Len(Case.calls) /\ j <= Len(Call.draws)
        /\ LET d == Call.draws[j] IN
           /\ errs' = errs
                \cup (IF d.before \in used THEN {"a draw of " \o d.dist \o " uses a generator state that an earlier call has used"} ELSE {})
                \cup (IF \E m \in mine : m[1] = d.before /\ m[2] # d.sig
                      THEN {"two draws of a call use the same generator state (" \o d.dist \o ")"} ELSE {})
                \cup (IF d.n > 0 /\ d.after = d.before THEN {"a draw of " \o d.dist \o " does not advance its generator"} ELSE {})
           /\ mine' = IF d.n > 0 THEN mine \cup {<<d.before, d.sig>>} ELSE mine
        /\ j' = j + 1 /\ UNCHANGED <<c, i, used>>

Return == /\ i <= Len(Case.calls) /\ j = Len(Call.draws) + 1
          /\ LET all == used \cup {m[1] : m \in mine} IN
             /\ errs' = errs \cup (IF \E k \in DOMAIN Call.shared : Call.shared[k] \in all
                                   THEN {"a generator's state after a call is one that a draw has used"} ELSE {})
             /\ used' = all
          /\ mine' = {} /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED c

Report == /\ i = Len(Case.calls) + 1
          /\ PrintT("RESULT " \o ToJson([id |-> Case.id, errs |-> errs, kfs |-> {}]))
          /\ i' = i + 1 /\ UNCHANGED <<c, j, used, mine, errs>>
Next == Draw \/ Return \/ Report
==============================================================================
