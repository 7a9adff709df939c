-------------------------------- MODULE Fixed --------------------------------
(***************************************************************************)
(* The fixed-point types.  A value is stored as an integer `raw' meaning   *)
(* raw / 10^scale.  Every operation says in which direction it rounds; a   *)
(* result that does not fit the machine type is NaN ("refused").           *)
(***************************************************************************)
EXTENDS BigNum, Integers, Sequences

E5  == Pow10(5)    \* one unit of Liquidity      (scale  5, 256 bits)
E12 == Pow10(12)   \* one unit of Percentage     (scale 12, 128 bits), FixedPoint
E24 == Pow10(24)   \* one unit of SqrtPrice      (scale 24, 128 bits)
E28 == Pow10(28)   \* one unit of FeeGrowth      (scale 28, 128 bits)
E19 == Pow10(19)
MAX256 == Pow2(256) -- One
MAX128 == Pow2(128) -- One

MulDown(a, b, one) == (a ** b) // one          \* a*b, b in units of 1/one
MulUp(a, b, one)   == BCeil(a ** b, one)
=============================================================================
