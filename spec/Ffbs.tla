--------------------------------- MODULE Ffbs ---------------------------------
(* Forward-filtering backward-sampling.  S_0 ~ gamma0 (normalised), S_t | S_(t-1) *)
(* has the transition matrix Gamma_t, y_t | S_t has the log-likelihoods ll[.][t],  *)
(* t = 1..N.  A recorded run is a sequence of categorical draws (probabilities and *)
(* outcome), and the states it returned.  The run is a behaviour of this module:   *)
(*   Forward(t): the exact filter alpha_t = p(S_t | y_1..t);                       *)
(*   Backward(t): the next draw must be from p(S_t | S_(t+1), y_1..t), and its     *)
(*   outcome is the state returned for t.                                          *)
(* For short sequences the product of the draws' probabilities is also compared    *)
(* with p(S_1..N | y_1..N) computed by summing over all the paths.                 *)
EXTENDS Tensor, FiniteSets, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, t, phase, alpha, errs
vars == <<c, t, phase, alpha, errs>>
Case == Cases[c]
M(cs) == cs.M
N(cs) == cs.N
\* entries, from 1; a single transition matrix serves every t
G(cs, n, i, j) == LET b == IF Len(cs.gammas) = 1 THEN 1 ELSE n IN cs.gammas[b][i][j]
Norm(v) == LET s == NSum(v) IN NSeq([i \in DOMAIN v |-> NDiv(v[i], s)])
MaxOf(v) == LET RECURSIVE go(_) go(i) == IF i = Len(v) THEN v[i] ELSE NMax(v[i], go(i + 1)) IN go(1)
Lik(cs, n) == LET mx == MaxOf([i \in 1..M(cs) |-> cs.ll[i][n]]) IN NSeq([i \in 1..M(cs) |-> NExp(NSub(cs.ll[i][n], mx))])

StepF(cs, a, n) == LET l == Lik(cs, n) IN
  Norm([j \in 1..M(cs) |-> NMul(NSum([i \in 1..M(cs) |-> NMul(a[i], G(cs, n, i, j))]), l[j])])

\* The draws in the order they were made: first S_N, then backwards
DrawFor(cs, n) == cs.draws[N(cs) - n + 1]
StateOf(d) == NToInt(d.out) + 1
Cond(cs, a, n) == IF n = N(cs) THEN a
                  ELSE Norm([i \in 1..M(cs) |-> NMul(a[i], G(cs, n + 1, i, StateOf(DrawFor(cs, n + 1))))])
VecClose(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : NClose(p[i], q[i], "1e-8", "1e-12")

\* p(S | y) by enumeration
RECURSIVE PathW(_, _, _)
PathW(cs, s, n) == IF n = 0 THEN "1"
  ELSE NMul(PathW(cs, s, n - 1),
            NMul(Lik(cs, n)[s[n]],
                 IF n = 1 THEN NSum([i \in 1..M(cs) |-> NMul(cs.gamma0[i], G(cs, 1, i, s[1]))])
                 ELSE G(cs, n, s[n - 1], s[n])))
RECURSIVE SumSet(_, _, _)
SumSet(cs, S, acc) == IF S = {} THEN acc ELSE LET s == CHOOSE x \in S : TRUE IN SumSet(cs, S \ {s}, NAdd(acc, PathW(cs, s, N(cs))))
RECURSIVE ProdDraws(_, _)
ProdDraws(cs, k) == IF k = 0 THEN "1" ELSE NMul(cs.draws[k].p[StateOf(cs.draws[k])], ProdDraws(cs, k - 1))

BruteErrs(cs) ==
  IF ~ cs.brute THEN {} ELSE
  LET s == NSeq([n \in 1..N(cs) |-> NToInt(cs.states[n]) + 1])
      tot == SumSet(cs, [1..N(cs) -> 1..M(cs)], "0")
  IN IF NClose(ProdDraws(cs, N(cs)), NDiv(PathW(cs, s, N(cs)), tot), "1e-8", "1e-12") THEN {}
     ELSE {"the probability of the returned path is not its posterior probability"}

Init == /\ c \in 1..Len(Cases) /\ t = 0 /\ phase = "forward"
        /\ alpha = <<Norm(Cases[c].gamma0)>>
        /\ errs = IF Len(Cases[c].draws) # N(Cases[c]) \/ Len(Cases[c].states) # N(Cases[c])
                  THEN {"the number of draws or states is not the number of observations"} ELSE {}
Forward == /\ phase = "forward" /\ t < N(Case) /\ errs = {}
           /\ alpha' = Append(alpha, StepF(Case, alpha[Len(alpha)], t + 1))
           /\ t' = t + 1 /\ UNCHANGED <<c, phase, errs>>
Turn == /\ phase = "forward" /\ (t = N(Case) \/ errs # {})
        /\ phase' = "backward" /\ UNCHANGED <<c, t, alpha, errs>>
Backward == /\ phase = "backward" /\ t > 0 /\ errs = {}
            /\ LET d == DrawFor(Case, t) IN
               errs' = errs
                 \cup (IF VecClose(d.p, Cond(Case, alpha[Len(alpha)], t)) THEN {}
                       ELSE {"a state is not drawn from its conditional distribution"})
                 \cup (IF NEq(Case.states[t], d.out) THEN {} ELSE {"the returned states are not the drawn ones"})
            /\ alpha' = SubSeq(alpha, 1, Len(alpha) - 1)
            /\ t' = t - 1 /\ UNCHANGED <<c, phase>>
Report == /\ phase = "backward" /\ (t = 0 \/ errs # {})
          /\ LET e == IF errs # {} THEN errs ELSE BruteErrs(Case) IN
             PrintT("RESULT " \o ToJson([id |-> Case.id, errs |-> e, kfs |-> {}]))
          /\ phase' = "done" /\ UNCHANGED <<c, t, alpha, errs>>
Next == Forward \/ Turn \/ Backward \/ Report
===============================================================================
