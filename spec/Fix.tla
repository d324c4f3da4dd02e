-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Real numbers as fixed-point numbers with 40 decimals, represented by    *)
(* the big integer 10^40 x.  Products and quotients are rounded towards    *)
(* zero, so every operation is exact to within 10^-40.                     *)
(*                                                                         *)
(* Three more values stand for what a floating-point array can hold:       *)
(* NaN, Inf (either infinity) and Huge (a finite magnitude above 10^100).  *)
(***************************************************************************)
EXTENDS Big

LOCAL P == 10                       \* 10 digits in base 10^4 = 40 decimals

NaN  == <<>>
Inf  == <<8>>
Huge == <<9>>
Finite(x) == Len(x) >= 1 /\ x[1] \in {-1, 0, 1}

F0 == BZero
FInt(n) == BShift(BInt(n), P)
F1 == FInt(1)
F2 == FInt(2)
FAdd(a, b) == BAdd(a, b)
FSub(a, b) == BSub(a, b)
FNeg(a) == IF a[1] = 0 THEN a ELSE BNeg(a)
FAbs(a) == BAbs(a)
FMul(a, b) == BShift(BMul(a, b), -P)
FDiv(a, b) == BDiv(BShift(a, P), b)
FRat(n, d) == BDiv(FInt(n), BInt(d))
FLe(a, b) == BCmp(a, b) <= 0
FLt(a, b) == BCmp(a, b) < 0
FEq(a, b) == BCmp(a, b) = 0
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FSqrt(a) == BSqrt(BShift(a, P))

\* 10^(-4 n) for n in 0..10
FTiny(n) == BShift(BInt(1), P - n)

RECURSIVE FSumTo(_, _)
FSumTo(s, n) == IF n = 0 THEN F0 ELSE FAdd(FSumTo(s, n - 1), s[n])
FSum(s) == FSumTo(s, Len(s))

\* sum of absolute values
RECURSIVE FAbsSumTo(_, _)
FAbsSumTo(s, n) == IF n = 0 THEN F0 ELSE FAdd(FAbsSumTo(s, n - 1), FAbs(s[n]))
FAbsSum(s) == FAbsSumTo(s, Len(s))

(***************************************************************************)
(* Exponential of a non-positive number: halve the argument until it is    *)
(* above -1/16, sum 19 terms of the Taylor series (Horner), square back.    *)
(***************************************************************************)
RECURSIVE ExpTaylor(_, _)
ExpTaylor(x, k) ==                  \* 1 + x/k (1 + x/(k+1) (1 + ...)), up to term 19
    IF k > 19 THEN F1
    ELSE FAdd(F1, BDiv(FMul(x, ExpTaylor(x, k + 1)), BInt(k)))

RECURSIVE FExpNeg(_)
FExpNeg(x) ==
    IF FLe(FRat(-1, 16), x) THEN ExpTaylor(x, 1)
    ELSE LET h == FExpNeg(BDiv(x, BInt(2))) IN FMul(h, h)

\* exp(x) for x <= 0; below -100 it is zero to the precision used
FExp(x) == IF FLt(x, FInt(-100)) THEN F0 ELSE FExpNeg(x)

\* |x - y| <= tol for finite numbers
Near(x, y, tol) == FLe(FAbs(FSub(x, y)), tol)
=============================================================================
