------------------------------ MODULE PGTrace ------------------------------
(* The law of a Polya-Gamma variable, PG(h, z), element by element.  It is known  *)
(* by its Laplace transform                                                        *)
(*     E exp(-t w) = (cosh(z/2) / cosh(sqrt((z^2/2 + t) / 2)))^h                   *)
(* and, as the support is positive, by nothing less than this for all t > 0.      *)
(*                                                                                 *)
(* A case is a history of calls of one program: the states of the generator, the   *)
(* parameters and results (a digest of them), the shapes and types; and the sample  *)
(* means of exp(-t w) for every element (each with a t of its own), over n draws,   *)
(* and of the product of two consecutive draws' exp(-t w).  ntol is the number of standard errors that are    *)
(* tolerated, slack the error of the approximations that the sampler uses; distinct *)
(* is FALSE if the law is so narrow that two draws may be equal.                    *)
EXTENDS Tensor, Dist, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, used, errs
vars == <<c, i, used, errs>>
Case == Cases[c]

LogCosh(x) == LET y == NAbs(x) IN NSub(NAdd(y, NSoftplus(NMul("-2", y))), Log2)
LogLap(h, z, t) == NMul(h, NSub(LogCosh(NMul(Half, z)), LogCosh(NSqrt(NMul(Half, NAdd(NMul(Half, Sq(z)), t))))))
Lap(h, z, t) == NExp(LogLap(h, z, t))
\* the mean of a bounded statistic with this mean and second moment is within the tolerance
Near(mean, mu, m2, n, cs) ==
  LET sd == NSqrt(NDiv(NMax("0", NSub(m2, Sq(mu))), n))
  IN NClose(mean, mu, "0", NAdd(NMul(cs.ntol, sd), cs.slack))

\* parameters that the library is known to be wrong for
LibraryWrong(cs) == \E p \in {<<"1", "200">>, <<"12", "100">>} :
  NClose(cs.h.d[1], p[1], "0", "0") /\ NClose(cs.z.d[1], p[2], "0", "0")
LawErrs(cs) == UNION {
  LET s == cs.stats[j] IN
    (IF s.mean.sh # cs.sh THEN {"the elements of the draws don't have the expected shape"} ELSE
     UNION {LET h == BGet(cs.h, cs.sh, k - 1) z == BGet(cs.z, cs.sh, k - 1) t == s.t.d[k] m == Lap(h, z, t) IN
       (IF Near(s.mean.d[k], m, Lap(h, z, NMul("2", t)), s.n, cs) THEN {} ELSE {"the draws are not from PG(h, z)"})
       \cup (IF Near(s.lag.d[k], Sq(m), Sq(Lap(h, z, NMul("2", t))), NMul(Half, s.n), cs) THEN {} ELSE {"consecutive draws are not independent"})
       : k \in 1..Prod(cs.sh)}
     \cup UNION {LET f(q) == Lap(BGet(cs.h, cs.sh, q), BGet(cs.z, cs.sh, q), s.t.d[q + 1])
                      g(q) == Lap(BGet(cs.h, cs.sh, q), BGet(cs.z, cs.sh, q), NMul("2", s.t.d[q + 1])) IN
       IF Near(s.cross.d[k], NMul(f(k - 1), f(k)), NMul(g(k - 1), g(k)), s.n, cs) THEN {} ELSE {"elements are not independent"}
       : k \in 1..(Prod(cs.sh) - 1)})
  : j \in DOMAIN cs.stats}
\* h has to be positive: anything else is refused
BadH(cs) == \E k \in DOMAIN cs.h.d : ~ NLt("0", cs.h.d[k])
StatErrs(cs) == IF LibraryWrong(cs) THEN {} ELSE LawErrs(cs)
KFs(cs) == IF ~BadH(cs) /\ ~cs.refused /\ LibraryWrong(cs) /\ LawErrs(cs) # {} THEN {"KF5"} ELSE {}

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ used = {}
        /\ errs = LET cs == Cases[c] IN
             IF BadH(cs) THEN (IF cs.refused THEN {} ELSE {"a number h that is not positive is accepted"})
             ELSE IF cs.refused THEN {"the request is refused"}
             ELSE (IF cs.outsh = cs.sh THEN {} ELSE {"the shape is wrong"})
                  \cup (IF cs.static THEN {} ELSE {"the type of the variable doesn't agree with its value"})
                  \cup (IF cs.dtype = cs.float THEN {} ELSE {"the type is not floatX"})
                  \cup StatErrs(cs)
Call == /\ i <= Len(Case.calls)
        /\ LET e == Case.calls[i] IN
           /\ errs' = errs
                \cup (IF \E u \in used : u[1] = e.before /\ u[2] # e.res THEN {"equal states of the generator give different results"} ELSE {})
                \cup (IF Case.distinct /\ \E u \in used : u[1] # e.before /\ u[2] = e.res THEN {"different states of the generator give equal results"} ELSE {})
                \cup (IF \E u \in used : u[1] = e.before /\ u[3] # e.after THEN {"the next state of the generator is not a function of its state"} ELSE {})
                \cup (IF e.after = e.before THEN {"the generator is not advanced"} ELSE {})
                \cup (IF e.input = e.before THEN {} ELSE {"the generator that was given is altered"})
                \cup (IF e.ok THEN {} ELSE {"a value is not a positive number"})
           /\ used' = used \cup {<<e.before, e.res, e.after>>}
        /\ i' = i + 1 /\ UNCHANGED c
Report == /\ i = Len(Case.calls) + 1
          /\ PrintT("RESULT " \o ToJson([id |-> Case.id, errs |-> errs, kfs |-> KFs(Case)]))
          /\ i' = i + 1 /\ UNCHANGED <<c, used, errs>>
Next == Call \/ Report
=============================================================================
