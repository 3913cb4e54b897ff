------------------------------- MODULE RealNum -------------------------------
(* Real arithmetic on decimal strings ("0.25", "1e-300", "-inf", "nan").      *)
(* TLC evaluates the operators through java/RealNum.java (40 digits).  The    *)
(* right-hand sides below are placeholders TLC never evaluates.               *)
LOCAL INSTANCE Integers
LOCAL X == CHOOSE x : TRUE

RFin(a)        == X   \* a is a finite number
RAdd(a, b)     == X
RSub(a, b)     == X
RMul(a, b)     == X
RDiv(a, b)     == X   \* "nan" on division by zero
RNeg(a)        == X
RAbs(a)        == X
RSign(a)       == X   \* -1, 0 or 1 as a TLA+ integer
RLt(a, b)      == X
RLe(a, b)      == X
REq(a, b)      == X
RPow(a, n)     == X   \* n a TLA+ integer
RSum(q)        == X   \* sum of a sequence
RProd(q)       == X   \* product of a sequence
RDot(a, b)     == X   \* inner product of two sequences
RExp(a)        == X
RLn(a)         == X
RSqrt(a)       == X
RLGamma(a)     == X
RDigamma(a)    == X
RGammaP(a, x)  == X   \* regularised lower incomplete gamma function
RNormCdf(z)    == X
RInt(a)        == X   \* TLA+ integer (or string) to real
RIsInt(a)      == X
RFloor(a)      == X   \* to TLA+ integer
RCeil(a)       == X
RClose(a, b, tol)    == X  \* |a-b| <= tol*(1+max(|a|,|b|)); same token if not finite
RRelClose(a, b, tol) == X  \* |a-b| <= tol*max(|a|,|b|)
RLogIs(obs, p, tol)  == X  \* obs is the log of p (p=0: obs="-inf" or below -9e5,
                           \*  where RExp is cut off)
=============================================================================
