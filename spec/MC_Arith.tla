------------------------------ MODULE MC_Arith ------------------------------
(* The Java overrides agree with the definitions, and the arithmetic obeys *)
(* its laws, on a range of operands built from the given digits.           *)
EXTENDS Fix, TLC
Pure == INSTANCE BigPure
VARIABLE a, b
Mags == {<<>>, <<1>>, <<9999>>, <<0, 1>>, <<7, 0, 3>>, <<9999, 9999, 9999>>,
         <<1234, 5678, 9012, 3456, 7890>>, <<0, 0, 0, 0, 0, 0, 0, 1>>,
         <<4321, 0, 9999, 1, 0, 0, 77, 8888, 9999, 5>>}
Nums == {IF m = <<>> THEN BZero ELSE <<s>> \o m : s \in {-1, 1}, m \in Mags}
Init == a \in Nums /\ b \in Nums
Next == UNCHANGED <<a, b>>
SameAsPure ==
    /\ BAdd(a, b) = Pure!BAdd(a, b)
    /\ BSub(a, b) = Pure!BSub(a, b)
    /\ BMul(a, b) = Pure!BMul(a, b)
    /\ BCmp(a, b) = Pure!BCmp(a, b)
    /\ b # BZero => BDiv(a, b) = Pure!BDiv(a, b)
    /\ BSqrt(BAbs(a)) = Pure!BSqrt(BAbs(a))
    /\ \A n \in {-3, -1, 0, 2} : BShift(a, n) = Pure!BShift(a, n)
Laws ==
    /\ BSub(BAdd(a, b), b) = a
    /\ b # BZero => LET q == BDiv(a, b) r == BSub(a, BMul(q, b))
                    IN BCmp(BAbs(r), BAbs(b)) < 0 /\ (r = BZero \/ r[1] = a[1])
    /\ LET x == BAbs(a) s == BSqrt(x) s1 == BAdd(s, BInt(1))
       IN BCmp(BMul(s, s), x) <= 0 /\ BCmp(BMul(s1, s1), x) > 0
\* exp: exp(-1) to 36 decimals, functional equation
ExpOne == <<1, 4458, 867, 6146, 7701, 5523, 2159, 4423, 1171, 7944, 3678>>
ASSUME Near(FExp(FInt(-1)), FAdd(ExpOne, F0), FTiny(9))
ASSUME \A n \in {1, 7, 33, 250, 4000, 65000} :
          LET x == FRat(-n, 1000) IN
            Near(FMul(FExp(x), FExp(FRat(-n, 500))), FExp(FRat(-3 * n, 1000)), FTiny(9))
ASSUME \A n \in {2, 3, 10, 12345} : Near(FMul(FSqrt(FInt(n)), FSqrt(FInt(n))), FInt(n), FTiny(9))
=============================================================================
