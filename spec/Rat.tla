-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  TLC's integers are 32 bit, so a rational is *)
(* a TLC integer or a string "n" / "n/d" in lowest terms.  An IEEE double  *)
(* is a dyadic rational, hence every number the implementation returns is  *)
(* represented EXACTLY.  The operators are evaluated by the Java module    *)
(* override java/vrat/RatOps.java (as CommunityModules does for its own    *)
(* modules); the TLA+ bodies below are never used by TLC.  RatLaws.tla     *)
(* checks the override against algebraic laws and known values.            *)
(*                                                                         *)
(* Anything that is not a rational ("nan", "inf", ...) is absorbing for    *)
(* arithmetic and makes every comparison FALSE: verdicts are total.        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RNum(a)     == TRUE      \* a is a number
R(a, b)     == a         \* a / b
RAdd(a, b)  == a
RSub(a, b)  == a
RMul(a, b)  == a
RDiv(a, b)  == a
RNeg(a)     == a
RAbs(a)     == a
RMin(a, b)  == a
RMax(a, b)  == a
RLe(a, b)   == TRUE
RLt(a, b)   == TRUE
REq(a, b)   == TRUE
RFloor(a)   == a
RIsInt(a)   == TRUE
RToInt(a)   == 0         \* TLC integer, -2^31 when not an integer below 2^30
RPow(a, k)  == a         \* integer exponent
RSum(s)     == 0         \* sum of a sequence
RDot(s, t)  == 0         \* inner product of two sequences
RSqrt(a)    == a         \* 50 significant digits
RExp(a)     == a         \* 50 significant digits
RLn(a)      == a         \* 50 significant digits

----------------------------------------------------------------------------
\* Derived operators (plain TLA+).
RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RSq(a)    == RMul(a, a)
RZero(a)  == REq(a, 0)
RSgn(a)   == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0

\* |a - b| <= tol, absolutely / relative to max(1, |a|, |b|)
RNear(a, b, tol)  == RLe(RAbs(RSub(a, b)), tol)
RClose(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RMax(1, RMax(RAbs(a), RAbs(b)))))
\* a <= b up to tol
RLeT(a, b, tol)   == RLe(a, RAdd(b, tol))

TolTight == R(1, 1000000000)     \* 1e-9: closed-form double arithmetic
Tol12    == RPow(R(1, 10), 12)
Tol10    == RPow(R(1, 10), 10)
Tol8     == R(1, 100000000)
Tol7     == R(1, 10000000)
Tol6     == R(1, 1000000)
Tol5     == R(1, 100000)
Tol4     == R(1, 10000)
=============================================================================
