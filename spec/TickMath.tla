------------------------------ MODULE TickMath ------------------------------
(***************************************************************************)
(* Ticks and prices.  The square root of the price at tick t is the        *)
(* product of one constant per bit of |t|, each about 1.0001^(2^k/2), kept *)
(* to 12 decimals and rounded down after every factor; a negative tick has *)
(* the reciprocal.  The tick of a price is defined, not computed: it is    *)
(* the largest tick whose price does not exceed the given price.           *)
(***************************************************************************)
EXTENDS Fixed, Loop

MAX_TICK == 221818
MIN_TICK == -MAX_TICK
MAX_SQRT_PRICE == N("65535383934512647000000000000")
MIN_SQRT_PRICE == N("15258932000000000000")
SEARCH == 256                       \* how far (in spacings) a swap looks ahead

\* 1.0001^(2^k / 2) * 10^12, each squared from the one before (relative error up to 2.1e-9)
TickFactor == << N("1000049998750"), N("1000100000000"), N("1000200010000"),
  N("1000400060004"), N("1000800280056"), N("1001601200560"), N("1003204964963"),
  N("1006420201726"), N("1012881622442"), N("1025929181080"), N("1052530684591"),
  N("1107820842005"), N("1227267017980"), N("1506184333421"), N("2268591246242"),
  N("5146506242525"), N("26486526504348"), N("701536086265529") >>

RECURSIVE FactorProduct(_, _, _)
FactorProduct(n, k, acc) ==
  IF n = 0 THEN acc
  ELSE FactorProduct(n \div 2, k + 1,
         IF n % 2 = 1 THEN MulDown(acc, TickFactor[k], E12) ELSE acc)

Abs(i) == IF i < 0 THEN -i ELSE i

PriceAt(t) ==
  LET f == FactorProduct(Abs(t), 1, E12)
  IN  (IF t >= 0 THEN f ELSE (E12 ** E12) // f) ** E12
SqrtPriceAt(t) == IF Abs(t) > MAX_TICK THEN NaN ELSE Memo("price", PriceAt, t)

PriceInRange(p) == MIN_SQRT_PRICE \preceq p /\ p \preceq MAX_SQRT_PRICE

FloorTo(t, sp) == t - (t % sp)       \* TLA+'s % is never negative

\* PriceInRange(p) must hold
TickAt(p, sp) == FloorTo(Last(LAMBDA t : SqrtPriceAt(t) \preceq p, MIN_TICK, MAX_TICK), sp)

MaxTick(sp) == (MAX_TICK \div sp) * sp
MinTick(sp) == -MaxTick(sp)
ValidTick(t, sp) == t % sp = 0 /\ t <= MaxTick(sp) /\ t >= MinTick(sp)

\* price p may be the price of a pool whose current tick is t
PriceInTick(t, sp, p) ==
  IF t + sp > MAX_TICK THEN BEq(p, SqrtPriceAt(MaxTick(sp)))
  ELSE SqrtPriceAt(t) \preceq p /\ p \prec SqrtPriceAt(t + sp)

\* the place of a tick in the bitmap: chunk (64 ticks each) and bit
BitIndex(t, sp) == (t + MAX_TICK) \div sp
Chunk(t, sp) == BitIndex(t, sp) \div 64
Bit(t, sp) == BitIndex(t, sp) % 64
MaxChunk(sp) == Chunk(MaxTick(sp), sp)

\* as far as a swap may look from tick t
SearchLimit(t, sp, up) ==
  LET i == t \div sp
      m == MAX_TICK \div sp
  IN  (IF up THEN (IF i + SEARCH < m THEN i + SEARCH ELSE m)
             ELSE (IF i - SEARCH > -m THEN i - SEARCH ELSE -m)) * sp

MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y

\* the initialised ticks (of the set T) that a swap at tick t can see
VisibleTicks(T, t, sp, up) ==
  LET l == SearchLimit(t, sp, up)
  IN  IF up THEN {u \in T : u > t /\ u <= l} ELSE {u \in T : u <= t /\ u >= l}
=============================================================================
