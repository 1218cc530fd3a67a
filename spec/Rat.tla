-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rationals <<num, den>> with den > 0, plus MISS = <<0, 0>>, the     *)
(* missing value.  Every operation having a missing operand gives MISS:     *)
(* "missing values are never used as data" is the algebra of the model.     *)
(* TLC integers have 32 bits (and TLC stops on overflow), so results are    *)
(* always reduced to lowest terms.                                          *)
(***************************************************************************)
EXTENDS Integers

MISS == <<0, 0>>
IsMiss(r) == r[2] = 0

RAbs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

R(n, d) ==  \* d # 0
    LET g == GCD(RAbs(n), RAbs(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  <<s * (n \div g), s * (d \div g)>>

I(n) == <<n, 1>>

RAdd(a, b) == IF IsMiss(a) \/ IsMiss(b) THEN MISS
              ELSE IF a[2] = b[2] THEN R(a[1] + b[1], a[2])
              ELSE R(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a)    == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF IsMiss(a) \/ IsMiss(b) THEN MISS
              ELSE LET g == GCD(RAbs(a[1]), b[2])
                       h == GCD(RAbs(b[1]), a[2])
                       p == IF g = 0 THEN 1 ELSE g
                       q == IF h = 0 THEN 1 ELSE h
                   IN  R((a[1] \div p) * (b[1] \div q), (a[2] \div q) * (b[2] \div p))
RLt(a, b)  == a[1] * b[2] < b[1] * a[2]
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a

(* value of r in units of 1/sc, rounded down *)
Fix(r, sc) == (r[1] \div r[2]) * sc + ((r[1] % r[2]) * sc) \div r[2]
=============================================================================
