-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* Conformance of the library functions: every record [f, a, lib, ok | no] *)
(* is one call of a function of the contract's libraries (lib "c") or of   *)
(* the client SDK (lib "s") with what it answered (no: refused).  Expect   *)
(* is the specification's answer:                                          *)
(*   v    the exact value (NaN: there is none that fits the result type)   *)
(*   may  whether refusing is acceptable (an intermediate value does not   *)
(*        fit the integers the declared types provide)                     *)
(*   any  any answer is acceptable                                         *)
(* A value must be exact; a refusal must be unavoidable.                   *)
(***************************************************************************)
EXTENDS Pool, Curve, TraceIO

CONSTANTS Prop, File
Recs == ReadTraces(File)
Blocks == 64

VARIABLES n, bad
vars == <<n, bad>>

Has(o, k) == k \in DOMAIN o
X(v) == [v |-> v, may |-> IsNaN(v), any |-> FALSE]
XM(v, m) == [v |-> v, may |-> IsNaN(m), any |-> FALSE]
If(c, v) == IF c THEN [v |-> v, may |-> FALSE, any |-> FALSE] ELSE [v |-> NaN, may |-> TRUE, any |-> FALSE]
Any == [v |-> NaN, may |-> TRUE, any |-> TRUE]
Refused == [v |-> NaN, may |-> TRUE, any |-> FALSE]
\* a tuple of numbers, one NaN spoils it
Tup(q) == IF \E k \in DOMAIN q : IsNaN(q[k]) THEN NaN ELSE q

(***************************************************************************)
(* P27: the decimal types [scale, width, width of the big type].           *)
(***************************************************************************)
Dec == [TokenAmount |-> <<0, 256, 512>>, Liquidity |-> <<5, 256, 512>>, SqrtPrice |-> <<24, 128, 384>>,
        Percentage |-> <<12, 128, 256>>, FeeGrowth |-> <<28, 128, 256>>, FixedPoint |-> <<12, 128, 192>>,
        SecondsPerLiquidity |-> <<25, 128, 256>>]
Scale(t) == Dec[t][1]
Width(t) == Dec[t][2]
Big(t) == Dec[t][3]
Unit(t) == Pow10(Scale(t))

\* raw (of scale from) in scale to, rounded as asked
Rescale(raw, from, to, up) ==
  IF from < to THEN raw ** Pow10(to - from)
  ELSE IF up THEN BCeil(raw, Pow10(from - to)) ELSE raw // Pow10(from - to)

DecOne(op, t, p, q) ==
  LET w == Width(t)
      b == Big(t)
      one == Unit(t)
      \* the factor between the scales itself must fit, and so must the rounding
      Pw(sc) == IF sc > Scale(t) THEN sc - Scale(t) ELSE Scale(t) - sc
      Resc(v, sc, up, wd) ==
        LET k == Fit(Pow10(Pw(sc)), wd)
            e == Fit(Rescale(v, sc, Scale(t), up), wd)
        IN  XM(e, IF IsNaN(k) THEN NaN ELSE IF up /\ sc > Scale(t) THEN (IF IsNaN(Fit(v ++ k, wd)) THEN NaN ELSE e) ELSE e)
  IN CASE op \in {"add", "add_assign", "checked_add"} -> X(Fit(p ++ q, w))
       [] op \in {"sub", "sub_assign", "checked_sub"} -> X(p -- q)
       [] op = "sub_abs" -> X(Dist(p, q))
       [] op = "mul_assign" -> XM(Fit(MulDown(p, q, one), w), Fit(p ** q, w))
       [] op \in {"div_assign", "checked_div"} -> XM(Fit((p ** one) // q, w), Fit(p ** one, w) // q)
       [] op = "from_integer" -> X(Fit(p ** one, w))
       [] op \in {"from_scale", "checked_from_scale"} -> Resc(p, q, FALSE, w)
       [] op = "from_scale_up" -> Resc(p, q, TRUE, w)
       [] op = "from_scale_to_value" ->
            LET e == Fit(Rescale(p, q, Scale(t), FALSE), b)
            IN  XM(e, IF IsNaN(Fit(Pow10(Pw(q)), 128)) THEN NaN ELSE e)
       [] op \in {"big_div_by_number", "checked_big_div_by_number"} -> XM(Fit((p ** one) // q, w), Fit(Fit(p ** one, b) // q, w))
       [] op \in {"big_div_by_number_up", "checked_big_div_by_number_up"} ->
            XM(Fit(BCeil(p ** one, q), w), IF IsNaN(Fit((p ** one) ++ q, b)) THEN NaN ELSE Fit(BCeil(p ** one, q), w))
       [] op = "one" -> X(one)
       [] op = "almost_one" -> X(one -- One)
       [] op = "max" -> X(Pow2(w) -- One)
       [] op = "is_zero" -> If(TRUE, IsZero(p))

\* p of type t combined with q of type u
DecTwo(op, t, p, q, u) ==
  LET w == Width(t)
      b == Big(t)
      one == Unit(u)
      Both(wd, v) == IF IsNaN(Fit(q, wd)) \/ IsNaN(Fit(one, wd)) THEN NaN ELSE v
      mul == p ** q
      div == p ** one
      mulUp == BCeil(mul, one)
      divUp == BCeil(div, q)
      In(wd, inter, v) == Both(wd, IF IsNaN(Fit(inter, wd)) THEN NaN ELSE v)
      Resc(up) ==
        LET v == Fit(Rescale(q, Scale(u), Scale(t), up), w)
            k == Pow10(IF Scale(u) > Scale(t) THEN Scale(u) - Scale(t) ELSE 0)
        IN  XM(v, IF IsNaN(Fit(q, w)) \/ IsNaN(Fit(k, w)) \/ (up /\ IsNaN(Fit(q ++ k, w))) THEN NaN ELSE v)
  IN CASE op = "mul" -> XM(Fit(mul // one, w), In(w, mul, Fit(mul // one, w)))
       [] op = "mul_up" -> XM(Fit(mulUp, w), In(w, mul ++ (one -- One), Fit(mulUp, w)))
       [] op = "div" -> XM(Fit(div // q, w), In(w, div, Fit(div // q, w)))
       [] op = "div_up" -> XM(Fit(divUp, w), In(w, div ++ q, Fit(divUp, w)))
       [] op = "big_mul" -> XM(Fit(mul // one, w), In(b, mul, Fit(mul // one, w)))
       [] op = "big_mul_up" -> XM(Fit(mulUp, w), In(b, mul ++ one, Fit(mulUp, w)))
       [] op \in {"big_div", "checked_big_div"} -> XM(Fit(div // q, w), In(b, div, Fit(div // q, w)))
       [] op = "big_div_up" -> XM(Fit(divUp, w), In(b, div ++ q, Fit(divUp, w)))
       [] op = "big_mul_to_value" -> XM(Fit(mul // one, b), In(b, mul, Fit(mul // one, b)))
       [] op = "big_mul_to_value_up" -> XM(Fit(mulUp, b), In(b, mul ++ one, Fit(mulUp, b)))
       [] op \in {"from_decimal", "checked_from_decimal"} -> Resc(FALSE)
       [] op = "from_decimal_up" -> Resc(TRUE)
       [] op = "to_value" -> X(Fit(Rescale(q, Scale(u), Scale(t), FALSE), b))

(***************************************************************************)
(* P21: the price of every tick, and the tick of every price, by definition*)
(***************************************************************************)
\* 1.0001^(2^k) with 60 decimals, k = 0..17
E60 == Pow10(60)
RECURSIVE Base(_)
Base(k) == IF k = 0 THEN N("10001") ** Pow10(56) ELSE LET b == Base(k - 1) IN (b ** b) // E60
Bases == [k \in 1..18 |-> Base(k - 1)]
RECURSIVE IdealUp(_, _, _)
IdealUp(m, k, acc) ==
  IF m = 0 THEN acc
  ELSE IdealUp(m \div 2, k + 1, IF m % 2 = 1 THEN (acc ** Bases[k]) // E60 ELSE acc)
\* 1.0001^t with 48 decimals (the scale of a squared price)
Ideal(t) == IF t >= 0 THEN IdealUp(t, 1, E60) // E12 ELSE (E60 ** E60) // (IdealUp(-t, 1, E60) ** E12)
\* p is within 4e-9 (the precision of the constants together) and one unit of 12 decimals of 1.0001^(t/2)
NearIdeal(p, t) ==
  LET d == (p // N("250000000")) ++ (N("2") ** E12)
      lo == p -- d
      hi == p ++ d
      i == Ideal(t)
  IN  lo ** lo \preceq i /\ i \preceq hi ** hi

PricesOk(from, q) ==
  \A k \in 1..Len(q) :
    LET t == from + k - 1
        p == SqrtPriceAt(t)
    IN  /\ BEq(q[k], p) /\ NearIdeal(q[k], t)
        /\ (k > 1 => q[k - 1] \prec q[k])
        /\ PriceInRange(q[k])

\* r is the tick of price p: the largest multiple of sp whose price is at most p
IsTickOf(r, p, sp) ==
  /\ r % sp = 0 /\ Abs(r) <= MAX_TICK + sp
  /\ (r >= MIN_TICK => SqrtPriceAt(r) \preceq p)
  /\ (r + sp <= MAX_TICK => p \prec SqrtPriceAt(r + sp))
Clamp(p) == BMax(MIN_SQRT_PRICE, BMin(MAX_SQRT_PRICE, p))
TicksOk(from, sp, q) ==
  \A k \in 1..Len(q) :
    LET p == SqrtPriceAt(from + k - 1)
    IN  /\ IsTickOf(q[k][1], Clamp(p -- One), sp)
        /\ IsTickOf(q[k][2], p, sp)
        /\ IsTickOf(q[k][3], Clamp(p ++ One), sp)

(***************************************************************************)
(* P26: liquidity from amounts                                             *)
(***************************************************************************)
\* price cur in the range pl..pu; [l, other]: the liquidity x (or y) pays for, and the other token it needs
LiqOfX(x, pl, pu, cur, up) ==
  LET from == IF cur \prec pl THEN pl ELSE cur
      l == Fit((x ** ((from ** pu) // E24) ** E5) // (pu -- from), 256)
      d == (cur -- from) ++ (from -- pl)       \* cur - pl when the price is inside
      y == IF cur \prec pl THEN Zero ELSE IF up THEN BCeil(d ** l, E24 ** E5) ELSE (d ** l) // (E24 ** E5)
  IN  IF ~(cur \prec pu) \/ ~(pl \prec pu) THEN NaN ELSE Tup(<<l, Fit(y, 256)>>)
LiqOfY(y, pl, pu, cur, up) ==
  LET to == IF pu \preceq cur THEN pu ELSE cur
      l == Fit((y ** E24 ** E5) // (to -- pl), 256)
      den == ((cur ** pu) // E24) ** E5
      d == (pu -- cur) ** l
      x == IF pu \preceq cur THEN Zero ELSE IF up THEN BCeil(d, den) ELSE d // den
  IN  IF ~(pl \prec cur) \/ ~(pl \prec pu) THEN NaN ELSE Tup(<<l, Fit(x, 256)>>)
\* what the contract charges for liquidity l at price cur
CostX(l, pl, pu, cur) == IF cur \prec pl THEN DeltaX(pl, pu, l, TRUE) ELSE IF cur \prec pu THEN DeltaX(cur, pu, l, TRUE) ELSE Zero
CostY(l, pl, pu, cur) == IF pu \preceq cur THEN DeltaY(pl, pu, l, TRUE) ELSE IF pl \prec cur THEN DeltaY(pl, cur, l, TRUE) ELSE Zero
\* the meaning of the two functions, in terms of what the contract charges: r = <<liquidity, other token>>
PaysX(x, r, pl, pu, cur, up) ==
  /\ CostX(r[1], pl, pu, cur) \preceq x
  /\ up => CostY(r[1], pl, pu, cur) \preceq r[2]
  /\ ~up => r[2] \preceq CostY(r[1], pl, pu, cur)
  /\ LET m == LiqOfX(x ++ N("2"), pl, pu, cur, up)
     IN  IsNaN(m) \/ IsNaN(CostX(m[1], pl, pu, cur)) \/ x \prec CostX(m[1], pl, pu, cur)
PaysY(y, r, pl, pu, cur, up) ==
  /\ CostY(r[1], pl, pu, cur) \preceq y
  /\ up => CostX(r[1], pl, pu, cur) \preceq r[2]
  /\ ~up => r[2] \preceq CostX(r[1], pl, pu, cur)
  /\ LET m == LiqOfY(y ++ N("2"), pl, pu, cur, up)
     IN  IsNaN(m) \/ IsNaN(CostY(m[1], pl, pu, cur)) \/ y \prec CostY(m[1], pl, pu, cur)
LiqBoth(x, y, pl, pu, cur, up) ==
  LET rx == LiqOfX(x, pl, pu, cur, up)
      ry == LiqOfY(y, pl, pu, cur, up)
  IN  IF ~(pl \prec pu) THEN NaN
      ELSE IF pu \preceq cur THEN (IF IsNaN(ry) THEN NaN ELSE <<ry[2], y, ry[1]>>)
      ELSE IF cur \preceq pl THEN (IF IsNaN(rx) THEN NaN ELSE <<x, rx[2], rx[1]>>)
      ELSE IF IsNaN(rx) \/ IsNaN(ry) THEN NaN
      ELSE IF ry[1] \prec rx[1] THEN <<ry[2], y, ry[1]>> ELSE <<x, rx[2], rx[1]>>

(***************************************************************************)
(* P23: the SDK's simulation of a swap.                                    *)
(***************************************************************************)
MaxSteps == 142
TickFn(q) == [i \in {q[k].i : k \in DOMAIN q} |-> LET k == CHOOSE k \in DOMAIN q : q[k].i = i
                                                   IN  [i |-> i, sign |-> q[k].sign, ch |-> q[k].ch, gr |-> Zero, sp |-> Zero,
                                                        fox |-> Zero, foy |-> Zero, so |-> Zero]]
Quiet(r) == ~r.gil /\ ~r.max /\ ~r.old
Crossed(c) == [k \in 1..Len(c) |-> [i |-> c[k].i, ch |-> c[k].ch, sign |-> c[k].sign]]
\* the contract's recorded answer to the same swap, if the record has one: out = "fail", or [in, o, s1, idx]
Agrees(r, w) ==
  IF w.out = "fail" THEN ~Has(r, "ok") \/ ~Quiet(r.ok) \/ IsZero(r.ok.out)
  ELSE /\ Has(r, "ok")
       /\ \/ r.ok.max      \* (Simulated says when giving up is right)
          \/ /\ Quiet(r.ok)
             /\ BEq(r.ok.in, w.in) /\ BEq(r.ok.out, w.o) /\ BEq(r.ok.target, w.s1)
             /\ [k \in 1..Len(r.ok.crossed) |-> r.ok.crossed[k].i] = w.idx
Simulated(r) ==
  LET a == r.a
      T == TickFn(a[2])
      K == [fee |-> a[3], sp |-> a[4]]
      s == Swap(a[1], T, K, Zero, a[5], a[6], a[7], a[8], a[1].lt)
      miss == {a[9][k] : k \in DOMAIN a[9]}
      \* the same swap without the ticks that were not supplied cannot be predicted
      hit == \E k \in DOMAIN s.crossed : s.crossed[k].i \in miss
      same(z) == /\ BEq(z.in, s.in) /\ BEq(z.out, s.out) /\ BEq(z.fee, s.fee)
                 /\ BEq(z.start, a[1].sp) /\ BEq(z.target, s.p.sp) /\ z.crossed = Crossed(s.crossed)
  IN IF s.why \in {"zero amount", "wrong limit"} THEN ~Has(r, "ok")
     ELSE IF s.why = "arithmetic" THEN TRUE
     ELSE IF ~Has(r, "ok") THEN FALSE
     ELSE LET z == r.ok
          IN  IF hit THEN z.old
              ELSE IF miss # {} /\ z.old THEN TRUE
              ELSE IF s.n > MaxSteps THEN ~Quiet(z)
              ELSE IF s.why \in {"price limit", "tick limit"} THEN z.gil /\ ~z.old
              ELSE Quiet(z) /\ same(z)

(***************************************************************************)
(* The expected answers.                                                   *)
(***************************************************************************)
NormT(t) == IF IsZero(t.ch) THEN [t EXCEPT !.sign = TRUE] ELSE t
PosJ(q) == [liq |-> q.liq, fix |-> q.fix, fiy |-> q.fiy, ox |-> q.ox, oy |-> q.oy]
SetQ(q) == {q[k] : k \in DOMAIN q}
Opt(s, m) == IF s = {} THEN <<>> ELSE <<m>>
FeesOwed(lo, up, cur, gx, gy, px, py, L) ==
  LET g == Inside([tick |-> cur, fgx |-> gx, fgy |-> gy], lo, up)
  IN  Tup(<<FeeOf(WSub(g.x, px, 128), L), FeeOf(WSub(g.y, py, 128), L)>>)
OutT(i, x, y) == [i |-> i, fox |-> x, foy |-> y]

Expect(f, a, lib) ==
  CASE f = "dec" -> IF Len(a) = 4 THEN DecOne(a[1], a[2], a[3], a[4]) ELSE DecTwo(a[1], a[2], a[3], a[4], a[5])
    [] f \in {"cast", "checked_cast"} -> X(Fit(a[3], a[5]))
    [] f = "sqrt_price" -> X(SqrtPriceAt(a[1]))
    [] f = "tick_at" -> IF PriceInRange(a[1]) THEN If(TRUE, TickAt(a[1], a[2])) ELSE Refused
    [] f = "max_tick" -> If(a[1] > 0, MaxTick(a[1]))
    [] f = "min_tick" -> If(a[1] > 0, MinTick(a[1]))
    [] f = "max_price" -> X(SqrtPriceAt(MaxTick(a[1])))
    [] f = "min_price" -> X(SqrtPriceAt(MinTick(a[1])))
    [] f = "max_chunk" -> If(TRUE, MaxChunk(a[1]))
    [] f = "swap_step" ->
         LET s == SwapStep(a[1], a[2], a[3], a[4], a[5], a[6])
             v == Tup(<<s.next, s.in, s.out, s.fee>>)
         IN  IF lib = "s" /\ IsNaN(v) THEN Any ELSE X(v)
    [] f = "delta_x" -> LET v == DeltaX(a[1], a[2], a[3], a[4]) IN IF lib = "s" /\ IsNaN(v) THEN Any ELSE X(v)
    [] f = "delta_y" -> LET v == DeltaY(a[1], a[2], a[3], a[4]) IN IF lib = "s" /\ IsNaN(v) THEN Any ELSE X(v)
    [] f = "next_x" -> LET v == NextPriceX(a[1], a[2], a[3], a[4]) IN IF lib = "s" /\ IsNaN(v) THEN Any ELSE X(v)
    [] f = "enough" ->
         LET m == NextPrice(a[2], a[3], IF a[5] THEN AfterFee(a[1], a[4]) ELSE a[1], a[5], a[6])
         IN  IF IsZero(a[3]) THEN If(TRUE, TRUE)
             ELSE IF IsNaN(m) THEN (IF lib = "s" THEN Any ELSE Refused)
             ELSE If(TRUE, m # a[2])
    [] f = "amount_delta" ->
         LET v == AmountsOf(a[1], a[2], a[3], a[4], a[6], a[5])
         IN  IF IsNaN(v.x) \/ IsNaN(v.y) THEN Refused ELSE If(TRUE, <<v.x, v.y, v.in>>)
    [] f = "max_liq" -> X(MaxLiqPerTick(a[1]))
    [] f = "check_tick" -> If(ValidTick(a[1], a[2]), TRUE)
    [] f = "check_ticks" -> If(ValidTick(a[1], a[3]) /\ ValidTick(a[2], a[3]) /\ a[1] <= a[2], TRUE)
    [] f = "price_in_tick" ->
         IF Abs(a[1]) > MAX_TICK THEN Any ELSE If(TRUE, PriceInTick(a[1], a[2], a[3]))
    [] f = "search_limit" -> If(TRUE, SearchLimit(a[1], a[2], a[3]))
    [] f \in {"growth_add", "spl_add"} -> X(WAdd(a[1], a[2], 128))
    [] f \in {"growth_sub", "spl_sub"} -> X(WSub(a[1], a[2], 128))
    [] f = "growth_of" -> X(GrowthOf(a[2], a[1]))
    [] f = "fee_of" -> X(FeeOf(a[1], a[2]))
    [] f = "inside" ->
         LET g == Inside([tick |-> a[7], fgx |-> a[8], fgy |-> a[9]], OutT(a[1], a[2], a[3]), OutT(a[4], a[5], a[6]))
         IN  X(<<g.x, g.y>>)
    [] f = "position_fee" ->
         X(FeesOwed(OutT(a[1], a[2], a[3]), OutT(a[4], a[5], a[6]), a[7], a[8], a[9], a[10], a[11], a[12]))
    [] f = "spl_global" ->
         LET k == Fit((a[2] -- a[3]) ** Pow10(30), 128)
         IN  IF ~(a[3] \prec a[2]) THEN Refused ELSE XM(Fit(((a[2] -- a[3]) ** Pow10(30)) // a[1], 128), Fit(k // a[1], 128))
    [] f = "spl_inside" ->
         LET b == IF a[3] >= a[1] THEN a[4] ELSE WSub(a[6], a[4], 128)
             u == IF a[3] < a[2] THEN a[5] ELSE WSub(a[6], a[5], 128)
         IN  X(WSub(WSub(a[6], b, 128), u, 128))
    [] f \in {"liq_x", "liq_y"} ->
         IF Abs(a[2]) > MAX_TICK \/ Abs(a[3]) > MAX_TICK THEN Refused
         ELSE X(IF f = "liq_x" THEN LiqOfX(a[1], SqrtPriceAt(a[2]), SqrtPriceAt(a[3]), a[4], a[5])
                ELSE LiqOfY(a[1], SqrtPriceAt(a[2]), SqrtPriceAt(a[3]), a[4], a[5]))
    [] f = "liq_both" ->
         IF Abs(a[3]) > MAX_TICK \/ Abs(a[4]) > MAX_TICK THEN Refused
         ELSE X(LiqBoth(a[1], a[2], SqrtPriceAt(a[3]), SqrtPriceAt(a[4]), a[5], a[6]))
    [] f = "max_steps" -> If(TRUE, MaxSteps)
    [] f \in {"tick_pos", "tick_pos_inner"} ->
         IF a[2] = 0 \/ Abs(a[1]) > MAX_TICK THEN Refused
         ELSE IF a[1] % a[2] # 0 THEN Refused ELSE If(TRUE, <<Chunk(a[1], a[2]), Bit(a[1], a[2])>>)
    [] f = "pos_tick" -> If(a[3] > 0, (a[1] * 64 + a[2]) * a[3] - MaxTick(a[3]))
    [] f = "min_out" -> X(Fit(MulUp(a[1], E12 -- a[2], E12), 256))
    [] f = "next_init" -> LET v == VisibleTicks(SetQ(a[1]), a[2], a[3], TRUE) IN If(TRUE, Opt(v, IF v = {} THEN 0 ELSE MinOf(v)))
    [] f = "prev_init" -> LET v == VisibleTicks(SetQ(a[1]), a[2], a[3], FALSE) IN If(TRUE, Opt(v, IF v = {} THEN 0 ELSE MaxOf(v)))
    [] f = "closer" ->
         LET s == NextStop(SetQ(a[1]), a[4], a[5], a[3], a[2])
         IN  IF s.k = "end" THEN Refused
             ELSE If(TRUE, <<s.price, IF s.k = "limit" THEN <<>> ELSE << <<s.i, s.k = "tick">> >> >>)
    [] f = "map_get" -> If(TRUE, <<a[3] \in SetQ(a[1]) \ SetQ(a[2]), FALSE>>)
    [] f = "fee_tier" -> If(a[2] > 0 /\ a[2] <= 100 /\ a[1] \preceq E12, <<a[1], a[2]>>)
    [] f = "pool_key" -> If(a[1] # a[2], IF a[1] < a[2] THEN <<a[1], a[2], N("5"), 3>> ELSE <<a[2], a[1], N("5"), 3>>)
    [] f = "is_token_x" -> If(TRUE, a[1] < a[2])
    [] f = "pool_new" ->
         LET c == CreatePool([sp |-> a[4]], a[2], a[1], a[3], "r")
         IN  IF c.ok THEN If(TRUE, c.p) ELSE Refused
    [] f = "tick_new" -> If(TRUE, NewTick(a[1], a[2], a[3]))
    [] f = "tick_cross" ->
         LET c == Cross(a[1], a[2], a[2].tick >= a[1].i, a[3]) IN If(c.ok, <<c.t, c.p>>)
    [] f = "tick_update" ->
         LET u == TickUpdate(a[1], a[2], a[4], a[3], a[5]) IN If(u.ok, u.t)
    [] f = "add_fee" ->
         LET g == AddFee(a[1], a[2], a[3], a[4]) IN IF g.ok THEN If(TRUE, g.p) ELSE Refused
    [] f = "withdraw_fee" ->
         If(TRUE, <<[a[1] EXCEPT !.fpx = Zero, !.fpy = Zero], <<a[1].fpx, a[1].fpy>> >>)
    [] f = "modify" ->
         LET m == Modify(a[1], a[2], a[3], a[4], a[5], a[6], a[8], a[7])
         IN  If(m.ok, <<PosJ(m.q), m.p, m.lo, m.up, m.x, m.y>>)
    [] f = "claim" ->
         LET m == Modify(a[1], a[2], a[3], a[4], Zero, TRUE, a[8], a[7])
         IN  If(m.ok, <<[PosJ(m.q) EXCEPT !.ox = Zero, !.oy = Zero], m.p, m.lo, m.up, m.q.ox, m.q.oy>>)
    [] f = "remove" ->
         LET m == Modify(a[1], a[2], a[3], a[4], a[1].liq, FALSE, a[8], a[7])
             x == Fit(m.x ++ m.q.ox, 256)
             y == Fit(m.y ++ m.q.oy, 256)
         IN  If(m.ok /\ ~IsNaN(x) /\ ~IsNaN(y), <<m.p, m.lo, m.up, x, y, IsZero(m.lo.gr), IsZero(m.up.gr)>>)
    [] f = "create" ->
         LET z == [liq |-> Zero, fix |-> Zero, fiy |-> Zero, ox |-> Zero, oy |-> Zero]
             m == Modify(z, a[1], a[2], a[3], a[5], TRUE, a[8], a[4])
         IN  If(~(a[1].sp \prec a[6]) /\ ~(a[7] \prec a[1].sp) /\ m.ok,
                <<PosJ(m.q), m.p, m.lo, m.up, m.x, m.y, 7, a[2].i, a[3].i>>)

(***************************************************************************)
(* Constants, as records                                                   *)
(***************************************************************************)
ConstsOk(c, lib) ==
  /\ c.max_tick = MAX_TICK /\ BEq(c.max_price, MAX_SQRT_PRICE) /\ BEq(c.min_price, MIN_SQRT_PRICE)
  /\ c.search = SEARCH /\ c.chunk = 64 /\ c.liq_ticks = 21544 /\ c.pos_ticks = 17872

\* a tick without net liquidity has no sign
NormOk(f, v) ==
  CASE f \in {"tick_new", "tick_update"} -> NormT(v)
    [] f = "tick_cross" -> <<NormT(v[1]), v[2]>>
    [] f \in {"modify", "claim", "create"} -> [v EXCEPT ![3] = NormT(@), ![4] = NormT(@)]
    [] f = "remove" -> [v EXCEPT ![2] = NormT(@), ![3] = NormT(@)]
    [] OTHER -> v

Lemmas(r) ==
  CASE r.f = "liq_x" /\ Has(r, "ok") -> PaysX(r.a[1], r.ok, SqrtPriceAt(r.a[2]), SqrtPriceAt(r.a[3]), r.a[4], r.a[5])
    [] r.f = "liq_y" /\ Has(r, "ok") -> PaysY(r.a[1], r.ok, SqrtPriceAt(r.a[2]), SqrtPriceAt(r.a[3]), r.a[4], r.a[5])
    [] r.f = "liq_both" /\ Has(r, "ok") ->
         LET pl == SqrtPriceAt(r.a[3])
             pu == SqrtPriceAt(r.a[4])
         IN  /\ r.ok[1] \preceq r.a[1] \/ pu \preceq r.a[5] \/ (r.a[6] /\ r.ok[1] \preceq r.a[1] ++ One)
             /\ r.ok[2] \preceq r.a[2] \/ r.a[5] \preceq pl \/ (r.a[6] /\ r.ok[2] \preceq r.a[2] ++ One)
             /\ r.a[6] => CostX(r.ok[3], pl, pu, r.a[5]) \preceq r.ok[1] /\ CostY(r.ok[3], pl, pu, r.a[5]) \preceq r.ok[2]
    [] r.f = "delta_x" /\ Has(r, "ok") -> FairX(r.ok, r.a[1], r.a[2], r.a[3], r.a[4])
    [] r.f = "delta_y" /\ Has(r, "ok") -> FairY(r.ok, r.a[1], r.a[2], r.a[3], r.a[4])
    [] r.f = "next_x" /\ Has(r, "ok") /\ r.lib = "c" -> FairNextX(r.ok, r.a[1], r.a[2], r.a[3], r.a[4])
    [] r.f = "swap_step" /\ Has(r, "ok") ->
         FairStep(r.a[1], r.a[2], r.a[3], r.a[4], r.a[5], r.a[6], r.ok[1], r.ok[2], r.ok[3], r.ok[4])
    \* refused only if an amount does not fit
    [] r.f = "swap_step" /\ r.lib = "c" ->
         LET xy == r.a[2] \preceq r.a[1]
             x == xy = r.a[5]
             full == IF x THEN DeltaX(r.a[1], r.a[2], r.a[3], r.a[5]) ELSE DeltaY(r.a[1], r.a[2], r.a[3], r.a[5])
         IN  \/ IsNaN(full) \/ IsNaN(NextPrice(r.a[1], r.a[3], IF r.a[5] THEN AfterFee(r.a[4], r.a[6]) ELSE r.a[4], r.a[5], xy))
             \/ IsNaN(IF x THEN DeltaY(r.a[1], r.a[2], r.a[3], ~r.a[5]) ELSE DeltaX(r.a[1], r.a[2], r.a[3], ~r.a[5]))
    [] r.f = "growth_of" /\ Has(r, "ok") -> FairGrowth(r.ok, r.a[2], r.a[1])
    [] r.f = "fee_of" /\ Has(r, "ok") -> FairFee(r.ok, r.a[1], r.a[2])
    [] OTHER -> TRUE

Verdict(r) ==
  CASE r.f = "sqrt_prices" -> IF Has(r, "ok") /\ PricesOk(r.a[1], r.ok) THEN {} ELSE {"value"}
    [] r.f = "ticks_at" -> IF Has(r, "ok") /\ TicksOk(r.a[1], r.a[3], r.ok) THEN {} ELSE {"value"}
    [] r.f = "consts" -> IF Has(r, "ok") /\ ConstsOk(r.ok, r.lib) THEN {} ELSE {"value"}
    [] r.f = "simulate" -> (IF Simulated(r) THEN {} ELSE {"value"})
                           \cup (IF Has(r, "want") => Agrees(r, r.want) THEN {} ELSE {"differs from the contract"})
    [] OTHER ->
       LET e == Expect(r.f, r.a, r.lib)
       IN  (IF e.any THEN {}
            ELSE IF ~Has(r, "ok") THEN (IF e.may THEN {} ELSE {"refused"})
            ELSE IF IsNaN(e.v) THEN {"not refused"}
            ELSE IF NormOk(r.f, r.ok) = NormOk(r.f, e.v) THEN {} ELSE {"value"})
           \cup (IF Has(r, "want") => Has(r, "ok") /\ r.ok = r.want THEN {} ELSE {"differs from the contract"})
           \cup (IF Lemmas(r) THEN {} ELSE {"cost"})

(***************************************************************************)
(* Every record is one state; blocks let the workers share them.           *)
(***************************************************************************)
Init == n = 0 /\ bad = {}
Next == \/ n = 0 /\ n' \in {-b : b \in 1..Blocks} /\ bad' = {}
        \/ n < 0 /\ \E k \in {j \in 1..Len(Recs) : j % Blocks = (-n) % Blocks} :
             /\ n' = k
             /\ bad' = {<<Recs[k].f, Recs[k].lib, w>> : w \in Verdict(Recs[k])}
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
Short == [record |-> n, bad |-> bad]
=============================================================================
