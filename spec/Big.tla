-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arbitrary-precision integers for TLC, whose own integers have 32 bits.  *)
(*                                                                         *)
(* A big integer is a tuple <<s, l1, l2, ..., ln>>: s is its sign (-1, 0   *)
(* or 1) and l1..ln are the digits of its absolute value in base 10^4,     *)
(* least significant first, the last one being non-zero.  Zero is <<0>>.   *)
(*                                                                         *)
(* The definitions below are the meaning of the operators.  TLC replaces   *)
(* BAdd, BSub, BMul, BDiv, BSqrt, BCmp and BShift by the Java methods of   *)
(* java/Big.java when that class is on its class path; MC_Arith checks the *)
(* two against each other (through BigPure, a verbatim copy that is not    *)
(* replaced).                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

BZero == <<0>>

RECURSIVE TrimMag(_)
TrimMag(m) ==
    IF m = <<>> THEN m
    ELSE IF m[Len(m)] = 0 THEN TrimMag(SubSeq(m, 1, Len(m) - 1))
    ELSE m

\* sign s and untrimmed magnitude m as a big integer
Mk(s, m) == LET t == TrimMag(m) IN IF t = <<>> THEN BZero ELSE <<s>> \o t

RECURSIVE IntMag(_)
IntMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o IntMag(n \div Base)

\* a TLC integer as a big integer
BInt(n) == IF n = 0 THEN BZero
           ELSE IF n > 0 THEN <<1>> \o IntMag(n) ELSE <<-1>> \o IntMag(-n)

Sgn(a) == a[1]
Mag(a) == Tail(a)
BNeg(a) == <<-a[1]>> \o Tail(a)
BAbs(a) == IF a[1] = -1 THEN <<1>> \o Tail(a) ELSE a

Digit(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE MagCmpFrom(a, b, i - 1)

MagCmp(a, b) ==
    IF Len(a) < Len(b) THEN -1
    ELSE IF Len(a) > Len(b) THEN 1
    ELSE MagCmpFrom(a, b, Len(a))

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(a, b, i, c) ==
    IF i > MaxI(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == Digit(a, i) + Digit(b, i) + c
         IN <<t % Base>> \o MagAddFrom(a, b, i + 1, t \div Base)

MagAdd(a, b) == MagAddFrom(a, b, 1, 0)

\* requires MagCmp(a, b) >= 0
RECURSIVE MagSubFrom(_, _, _, _)
MagSubFrom(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET t == a[i] - Digit(b, i) - c
         IN IF t < 0 THEN <<t + Base>> \o MagSubFrom(a, b, i + 1, 1)
            ELSE <<t>> \o MagSubFrom(a, b, i + 1, 0)

MagSub(a, b) == TrimMag(MagSubFrom(a, b, 1, 0))

RECURSIVE MagMulDigit(_, _, _, _)
MagMulDigit(a, d, i, c) ==
    IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET t == a[i] * d + c
         IN <<t % Base>> \o MagMulDigit(a, d, i + 1, t \div Base)

RECURSIVE MagMulFrom(_, _, _)
MagMulFrom(a, b, j) ==
    IF j > Len(b) THEN <<>>
    ELSE MagAdd(TrimMag(MagMulDigit(a, b[j], 1, 0)),
                LET r == MagMulFrom(a, b, j + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)

MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE TrimMag(MagMulFrom(a, b, 1))

\* the largest digit q in lo..hi with q * b <= r
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF MagCmp(TrimMag(MagMulDigit(b, m, 1, 0)), r) <= 0
            THEN QDigit(r, b, m, hi) ELSE QDigit(r, b, lo, m - 1)

\* long division: quotient digits of a / b for digits i..1, remainder r so far
RECURSIVE MagDivFrom(_, _, _, _)
MagDivFrom(a, b, i, r) ==
    IF i = 0 THEN <<>>
    ELSE LET r1 == TrimMag(<<a[i]>> \o r)
             q  == QDigit(r1, b, 0, Base - 1)
             r2 == MagSub(r1, TrimMag(MagMulDigit(b, q, 1, 0)))
         IN MagDivFrom(a, b, i - 1, r2) \o <<q>>

MagDiv(a, b) == TrimMag(MagDivFrom(a, b, Len(a), <<>>))

BCmp(a, b) ==
    IF a[1] < b[1] THEN -1
    ELSE IF a[1] > b[1] THEN 1
    ELSE IF a[1] = 0 THEN 0
    ELSE a[1] * MagCmp(Mag(a), Mag(b))

BAdd(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], MagAdd(Mag(a), Mag(b)))
    ELSE LET c == MagCmp(Mag(a), Mag(b))
         IN IF c = 0 THEN BZero
            ELSE IF c > 0 THEN Mk(a[1], MagSub(Mag(a), Mag(b)))
            ELSE Mk(b[1], MagSub(Mag(b), Mag(a)))

BSub(a, b) == BAdd(a, IF b[1] = 0 THEN b ELSE <<-b[1]>> \o Tail(b))

BMul(a, b) ==
    IF a[1] = 0 \/ b[1] = 0 THEN BZero
    ELSE Mk(a[1] * b[1], MagMul(Mag(a), Mag(b)))

\* quotient rounded towards zero; b must not be zero
BDiv(a, b) ==
    IF a[1] = 0 THEN BZero
    ELSE Mk(a[1] * b[1], MagDiv(Mag(a), Mag(b)))

\* a * Base^n, rounded towards zero for negative n
BShift(a, n) ==
    IF a[1] = 0 THEN a
    ELSE IF n >= 0 THEN <<a[1]>> \o [i \in 1..n |-> 0] \o Tail(a)
    ELSE IF Len(a) - 1 <= -n THEN BZero
    ELSE <<a[1]>> \o SubSeq(a, 2 - n, Len(a))

\* Newton's iteration for the integer square root, from above
RECURSIVE SqrtIter(_, _)
SqrtIter(a, x) ==
    LET y == BDiv(BAdd(x, BDiv(a, x)), BInt(2))
    IN IF BCmp(y, x) >= 0 THEN x ELSE SqrtIter(a, y)

\* floor of the square root; a must not be negative
BSqrt(a) ==
    IF a[1] = 0 THEN a
    ELSE SqrtIter(a, BShift(BInt(1), (Len(a) + 1) \div 2))
=============================================================================
