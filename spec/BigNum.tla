------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Natural numbers of any size.  TLC's own integers have 32 bits, so TLC   *)
(* evaluates these operators with java/BigNum.java; the definitions below  *)
(* say what they mean.  A partial operation that has no value (a negative  *)
(* difference, a division by zero, a result that does not fit a machine    *)
(* type) yields NaN, and NaN poisons everything computed from it; every    *)
(* comparison with NaN is FALSE.                                           *)
(***************************************************************************)
EXTENDS Naturals
NaN == CHOOSE x : x \notin Nat
N(s) == s                  \* the number written as a decimal string or int
IsBig(x) == x \in Nat
IsNaN(x) == x = NaN
ToI(x) == x
RECURSIVE Pow10(_), Pow2(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Ok2(a, b) == ~IsNaN(a) /\ ~IsNaN(b)
BAdd(a, b) == IF Ok2(a, b) THEN a + b ELSE NaN
BSub(a, b) == IF Ok2(a, b) /\ a >= b THEN a - b ELSE NaN
BMul(a, b) == IF Ok2(a, b) THEN a * b ELSE NaN
BDiv(a, b) == IF Ok2(a, b) /\ b # 0 THEN a \div b ELSE NaN
BMod(a, b) == IF Ok2(a, b) /\ b # 0 THEN a % b ELSE NaN
BCeil(a, b) == IF Ok2(a, b) /\ b # 0 THEN (a + b - 1) \div b ELSE NaN
BSqrt(a) == IF IsNaN(a) THEN NaN ELSE CHOOSE r \in 0..a : r * r <= a /\ (r + 1) * (r + 1) > a
Fit(a, w) == IF ~IsNaN(a) /\ a < Pow2(w) THEN a ELSE NaN     \* fits w bits
WAdd(a, b, w) == IF Ok2(a, b) THEN (a + b) % Pow2(w) ELSE NaN \* wrapping
WSub(a, b, w) == IF Ok2(a, b) THEN (a + Pow2(w) - b) % Pow2(w) ELSE NaN
BLt(a, b) == Ok2(a, b) /\ a < b
BLe(a, b) == Ok2(a, b) /\ a <= b
BEq(a, b) == Ok2(a, b) /\ a = b
-----------------------------------------------------------------------------
a ++ b == BAdd(a, b)
a -- b == BSub(a, b)
a ** b == BMul(a, b)
a // b == BDiv(a, b)
a \prec b == BLt(a, b)
a \preceq b == BLe(a, b)
a \succ b == BLt(b, a)
a \succeq b == BLe(b, a)
Zero == N("0")
One == N("1")
IsZero(a) == BEq(a, 0)
BMin(a, b) == IF a \preceq b THEN a ELSE b
BMax(a, b) == IF a \preceq b THEN b ELSE a
Dist(a, b) == IF a \preceq b THEN b -- a ELSE a -- b
=============================================================================
