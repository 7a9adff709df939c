------------------------------ MODULE SwapMath ------------------------------
(***************************************************************************)
(* One segment of the constant-liquidity curve.  Widths (Fit) are those of *)
(* the contract's intermediate integers: a value that does not fit makes   *)
(* the operation fail, it is never cut off.                                *)
(***************************************************************************)
EXTENDS TickMath

\* token x between two prices: L * (1/pa - 1/pb), in whole tokens
DeltaX(pa, pb, L, up) ==
  LET num == Fit(Dist(pa, pb) ** L, 384) // E5
      den == IF up THEN Fit(pa ** pb, 384) // E24 ELSE BCeil(Fit(pa ** pb, 384), E24)
      n24 == Fit(num ** E24, 448)
      mid == IF up THEN Fit(BCeil(n24, den), 384) ELSE Fit(n24 // den, 384)
  IN  Fit(IF up THEN BCeil(mid, E24) ELSE mid // E24, 256)

\* token y between two prices: L * (pb - pa)
DeltaY(pa, pb, L, up) ==
  LET d == Fit(Dist(pa, pb) ** L, 384)
  IN  Fit(IF up THEN BCeil(BCeil(d, E5), E24) ELSE (d // E5) // E24, 256)

\* price after x tokens x have been added (or removed), rounded up
NextPriceX(p, L, x, add) ==
  IF IsZero(x) THEN p
  ELSE LET l24 == Fit(L ** E19, 384)
           px == Fit(p ** x, 384)
           den == IF add THEN Fit(l24 ++ px, 384) ELSE l24 -- px
           num == Fit(BCeil(Fit(p ** L, 384), E5) ** E24, 448)
       IN  Fit(BCeil(num, den), 128)

\* price after y tokens y have been added (or removed), rounded down
NextPriceY(p, L, y, add) ==
  LET num == Fit(Fit(y ** E24, 384) ** E24, 448)
      den == Fit(L ** E19, 384)
  IN  IF add THEN Fit(p ++ Fit(num // den, 128), 128)
      ELSE p -- Fit(BCeil(num, den), 128)

NextPrice(p, L, amt, byIn, xy) ==
  IF byIn = xy THEN NextPriceX(p, L, amt, byIn) ELSE NextPriceY(p, L, amt, byIn)

AfterFee(amt, fee) == MulDown(amt, E12 -- fee, E12)

BadStep == [next |-> NaN, in |-> NaN, out |-> NaN, fee |-> NaN]

(***************************************************************************)
(* One swap step from price cur towards price target with liquidity L and  *)
(* amt tokens left (of the input token if byIn, else of the output token). *)
(***************************************************************************)
SwapStep(cur, target, L, amt, byIn, fee) ==
  IF IsZero(L) THEN [next |-> target, in |-> Zero, out |-> Zero, fee |-> Zero]
  ELSE
  LET xy == target \preceq cur
      In(to)  == IF xy THEN DeltaX(to, cur, L, TRUE) ELSE DeltaY(cur, to, L, TRUE)
      Out(to) == IF xy THEN DeltaY(to, cur, L, FALSE) ELSE DeltaX(cur, to, L, FALSE)
      full == IF byIn THEN In(target) ELSE Out(target)
      have == IF byIn THEN AfterFee(amt, fee) ELSE amt
      near == IF IsNaN(full) \/ IsNaN(have) THEN NaN
              ELSE IF full \preceq have THEN target
              ELSE NextPrice(cur, L, have, byIn, xy)
      \* DeltaX rounds up so much that less may do: the price stops at the target all the same
      past == byIn /\ xy /\ near \prec target
      next == IF past THEN target ELSE near
      \* ... and no more is taken than there is
      in0  == In(next)
      in   == IF byIn /\ in0 \succ have THEN have ELSE in0
      out0 == Out(next)
      out  == IF ~byIn /\ out0 \succ amt THEN amt ELSE out0
      f    == IF byIn /\ next # target THEN amt -- in ELSE Fit(MulUp(in, fee, E12), 256)
  IN  IF IsNaN(next) \/ IsNaN(in) \/ IsNaN(out) \/ IsNaN(f) THEN BadStep
      ELSE [next |-> next, in |-> in, out |-> out, fee |-> f]

\* the price the remaining amount could move to; NaN = arithmetic failure
PriceMoved(amt, p, L, fee, byIn, xy) ==
  IF IsZero(L) THEN NaN
  ELSE NextPrice(p, L, IF byIn THEN AfterFee(amt, fee) ELSE amt, byIn, xy)

(***************************************************************************)
(* Fees per unit of liquidity (modulo 2^128) and back.                     *)
(***************************************************************************)
GrowthOf(fee, L) == Fit(Fit(Fit(fee ** E28, 384) ** E5, 384) // L, 128)
FeeOf(growth, L) == Fit((Fit(growth ** L, 384) // E5) // E28, 256)

(***************************************************************************)
(* What liquidity L in the range lo..up is worth at price p in tick t.     *)
(***************************************************************************)
AmountsOf(t, p, L, up, lo, hi) ==
  LET pl == SqrtPriceAt(lo)
      ph == SqrtPriceAt(hi)
  IN  IF hi < lo THEN [x |-> NaN, y |-> NaN, in |-> FALSE]
      ELSE IF t < lo THEN [x |-> DeltaX(pl, ph, L, up), y |-> Zero, in |-> FALSE]
      ELSE IF t < hi THEN [x |-> DeltaX(p, ph, L, up), y |-> DeltaY(pl, p, L, up), in |-> TRUE]
      ELSE [x |-> Zero, y |-> DeltaY(pl, ph, L, up), in |-> FALSE]

MaxLiqPerTick(sp) == MAX256 // N((2 * MAX_TICK + 1) \div sp)
=============================================================================
