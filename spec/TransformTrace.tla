--------------------------- MODULE TransformTrace ---------------------------
(* Re-expressions of a random variable X ~ dist(args), of shape sh, as a         *)
(* function of another random variable Z.  A case has the values of args, and     *)
(* probes: for each draw of the re-expression, what it returns when the draw has  *)
(* the values ys[1..] (and everything else is the same).  Element by element the  *)
(* result has to be g(Z) with g affine, or the reciprocal of an affine function,   *)
(* and by the change of variables                                                 *)
(*     log p_X(g(y)) = log p_Z(y) - log |g'(y)|.                                   *)
EXTENDS Kernels, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, best, pc
vars == <<c, i, best, pc>>
Case == Cases[c]

LawAt(z, y, k) == LawPdf(z.dist, [p \in DOMAIN z.args |-> BGet(z.args[p], y.sh, k - 1)], y.d[k])
XAt(cs, x, k) == LogPdf(cs.dist, [p \in DOMAIN cs.args |-> BGet(cs.args[p], x.sh, k - 1)], x.d[k])
Ident(x) == x
\* h(result) = s y + t for all probes; then g' = s / h'(x)
Slope(h(_), z, k) == NDiv(NSub(h(z.outs[2].d[k]), h(z.outs[1].d[k])), NSub(z.ys[2].d[k], z.ys[1].d[k]))
IsAffine(h(_), z, k) ==
  LET s == Slope(h, z, k) IN
  /\ ~ NEq(s, "0")
  /\ \A j \in 3..Len(z.ys) : NClose(h(z.outs[j].d[k]),
       NAdd(h(z.outs[1].d[k]), NMul(s, NSub(z.ys[j].d[k], z.ys[1].d[k]))), "1e-9", "1e-9")
\* log |g'| at probe j
LogD(form, z, j, k) == LET s == IF form = "affine" THEN Slope(Ident, z, k) ELSE Slope(Rec, z, k) IN
  NAdd(NLog(NAbs(s)), IF form = "affine" THEN "0" ELSE NMul("2", NLog(NAbs(z.outs[j].d[k]))))
SameLaw(cs, form, z, k) ==
  \A j \in DOMAIN z.ys : NClose(XAt(cs, z.outs[j], k), NSub(LawAt(z, z.ys[j], k), LogD(form, z, j, k)), "1e-9", "1e-8")
ProbeErrs(cs, z) ==
  IF \E j \in DOMAIN z.outs : z.outs[j].sh # cs.sh THEN {"the shape of the result is not that of the variable"}
  ELSE IF Len(z.ys[1].d) # Len(z.outs[1].d) \/ ~ DrawShapeOk(z, z.ys[1]) THEN {"the elements don't have draws of their own"}
  ELSE IF z.dist \notin LawKnown THEN {"unknown law"}
  ELSE UNION {IF IsAffine(Ident, z, k) THEN IF SameLaw(cs, "affine", z, k) THEN {} ELSE {"the result has another distribution"}
              ELSE IF IsAffine(Rec, z, k) THEN IF SameLaw(cs, "recip", z, k) THEN {} ELSE {"the result has another distribution"}
              ELSE {"the result is not a function of one draw"} : k \in 1..Prod(cs.sh)}

\* Known finding KF3: invgamma_exponential takes the rate for the scale.  KF4: a vector
\* of unit shape parameters is taken for a single one.
Unit(a) == \A k \in 1..Len(a.d) : NEq(a.d[k], "1")
KF3(cs) == cs.dist = "invgamma" /\ Unit(cs.args[1]) /\ \E p \in DOMAIN cs.probes : LET z == cs.probes[p] IN
  /\ z.dist = "exponential" /\ z.outs[1].sh = cs.sh /\ z.ys[1].sh = cs.sh
  /\ \A k \in 1..Prod(cs.sh) : \A j \in DOMAIN z.ys :
       /\ NClose(NMul(z.outs[j].d[k], z.ys[j].d[k]), "1", "1e-9", "0")
       /\ NClose(BGet(z.args[1], cs.sh, k - 1), BGet(cs.args[2], cs.sh, k - 1), "1e-9", "0")
KF4(cs) == /\ cs.dist = "invgamma" /\ Unit(cs.args[1]) /\ Len(cs.args[1].sh) > Len(cs.args[2].sh)
           /\ \E p \in DOMAIN cs.probes : LET z == cs.probes[p] IN
                z.dist = "exponential" /\ z.outs[1].sh = cs.args[2].sh /\ TEq(z.args[1], cs.args[2])

Init == c \in 1..Len(Cases) /\ i = 1 /\ best = {"no draw"} /\ pc = "probe"
Probe == /\ pc = "probe" /\ i <= Len(Case.probes)
         /\ LET e == ProbeErrs(Case, Case.probes[i]) IN best' = IF best = {} \/ (best # {"no draw"} /\ e # {}) THEN best ELSE e
         /\ i' = i + 1 /\ UNCHANGED <<c, pc>>
Report == /\ pc = "probe" /\ i > Len(Case.probes)
          /\ LET kf == IF best = {} THEN {} ELSE (IF KF3(Case) THEN {"KF3"} ELSE {}) \cup (IF KF4(Case) THEN {"KF4"} ELSE {})
                 e == IF Case.found THEN (IF kf # {} THEN {} ELSE best)
                      ELSE IF Case.must THEN {"the relation doesn't hold for the variable"} ELSE {}
             IN PrintT("RESULT " \o ToJson([id |-> Case.id, errs |-> e, kfs |-> IF Case.found THEN kf ELSE {}]))
          /\ pc' = "done" /\ UNCHANGED <<c, i, best>>
Next == Probe \/ Report
=============================================================================
