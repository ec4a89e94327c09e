-------------------------------- MODULE Num --------------------------------
(* Real arithmetic.  A number is a string in decimal notation ("2", "-0.25",  *)
(* "1e-3", "inf", "-inf", "nan"); this is how recorded floating point values  *)
(* reach the specification exactly, TLC's own integers being 32 bits wide.    *)
(* The operators are interpreted by java/Num.java with 40 significant digits. *)
(* The definitions below only give the signatures: TLC never evaluates them.  *)
LOCAL Real == STRING
NAdd(a, b) == CHOOSE r \in Real : TRUE      \* a + b
NSub(a, b) == CHOOSE r \in Real : TRUE      \* a - b
NMul(a, b) == CHOOSE r \in Real : TRUE      \* a * b
NDiv(a, b) == CHOOSE r \in Real : TRUE      \* a / b
NNeg(a) == CHOOSE r \in Real : TRUE         \* -a
NAbs(a) == CHOOSE r \in Real : TRUE         \* |a|
NMax(a, b) == CHOOSE r \in Real : TRUE
NFloor(a) == CHOOSE r \in Real : TRUE
NRound(a) == CHOOSE r \in Real : TRUE       \* the nearest integer
NSort(q) == CHOOSE r \in {q} : TRUE         \* a sequence of finite numbers in ascending order
NSum(q) == CHOOSE r \in Real : TRUE         \* the sum of a sequence of numbers
NDotP(p, q) == CHOOSE r \in Real : TRUE     \* the inner product of two sequences
NSeq(f) == f                                \* the same sequence, evaluated once
NExp(a) == CHOOSE r \in Real : TRUE
NLog(a) == CHOOSE r \in Real : TRUE
NSqrt(a) == CHOOSE r \in Real : TRUE
NSigmoid(a) == CHOOSE r \in Real : TRUE     \* 1 / (1 + exp(-a))
NSoftplus(a) == CHOOSE r \in Real : TRUE    \* log(1 + exp(a))
NLgamma(a) == CHOOSE r \in Real : TRUE      \* log Gamma(a), a > 0
NCos(a) == CHOOSE r \in Real : TRUE
NOfInt(i) == CHOOSE r \in Real : TRUE       \* the number of a TLA+ integer
NToInt(a) == CHOOSE i \in {0} : TRUE        \* and back (a must be integral)
NIsInt(a) == CHOOSE b \in BOOLEAN : TRUE
NFinite(a) == CHOOSE b \in BOOLEAN : TRUE
NLt(a, b) == CHOOSE r \in BOOLEAN : TRUE
NLe(a, b) == CHOOSE r \in BOOLEAN : TRUE
NEq(a, b) == CHOOSE r \in BOOLEAN : TRUE
NClose(a, b, rtol, atol) == CHOOSE r \in BOOLEAN : TRUE  \* |a-b| <= atol + rtol*max(|a|,|b|)
============================================================================
