-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* One pool and its ticks: swaps, opening, closing and claiming.           *)
(*   pool: [liq, sp, tick, fgx, fgy, fpx, fpy, st, lt, rcv]                *)
(*   tick: [i, sign, ch, gr, sp, fox, foy, so]                             *)
(*   K (pool key): [x, y, fee, sp]                                         *)
(***************************************************************************)
EXTENDS SwapMath, Loop

(***************************************************************************)
(* Fees.  The protocol takes its share rounded up, the rest grows the fee  *)
(* counter of the token paid in.  Dust without liquidity is nobody's.      *)
(***************************************************************************)
AddFee(p, fee, inX, pf) ==
  LET prot == Fit(MulUp(fee, pf, E12), 256)
      rest == fee -- prot
  IN  IF IsNaN(rest) THEN [ok |-> FALSE]
      ELSE IF IsZero(fee) \/ IsZero(p.liq) THEN [ok |-> TRUE, p |-> p, dg |-> Zero, prot |-> Zero]
      ELSE LET dg == GrowthOf(rest, p.liq)
               q == IF inX THEN [p EXCEPT !.fgx = WAdd(@, dg, 128), !.fpx = Fit(@ ++ prot, 256)]
                           ELSE [p EXCEPT !.fgy = WAdd(@, dg, 128), !.fpy = Fit(@ ++ prot, 256)]
           IN  IF IsNaN(dg) \/ IsNaN(q.fpx) \/ IsNaN(q.fpy) THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, p |-> q, dg |-> dg, prot |-> prot]

(***************************************************************************)
(* Crossing an initialised tick: its "outside" counters flip side, its net *)
(* liquidity joins (going up) or leaves (going down) the active liquidity. *)
(***************************************************************************)
Cross(t, p, xy, ts) ==
  LET add == xy # t.sign         \* up with positive net, or down with negative
      l == IF add THEN Fit(p.liq ++ t.ch, 256) ELSE p.liq -- t.ch
  IN  [t |-> [t EXCEPT !.fox = WSub(p.fgx, @, 128), !.foy = WSub(p.fgy, @, 128),
                       !.so = WSub(ts -- p.st, @, 64)],
       p |-> [p EXCEPT !.liq = l, !.lt = ts],
       ok |-> ~IsNaN(l) /\ ~IsNaN(ts -- p.st)]

(***************************************************************************)
(* Where the next segment of a swap ends: the nearest initialised tick,    *)
(* the end of the search range or the caller's limit, whichever is first.  *)
(***************************************************************************)
NextStop(T, t, sp, xy, lim) ==
  LET v == VisibleTicks(T, t, sp, ~xy)
      l == SearchLimit(t, sp, ~xy)
      u == IF v = {} THEN l ELSE IF xy THEN MaxOf(v) ELSE MinOf(v)
      pu == SqrtPriceAt(u)
      \* a tick exactly at the limit is still reached (and crossed) going up
      within == IF xy THEN pu \succ lim ELSE IF v = {} THEN pu \prec lim ELSE pu \preceq lim
  IN  IF v = {} /\ t = l THEN [k |-> "end", price |-> NaN, i |-> 0]
      ELSE IF ~within THEN [k |-> "limit", price |-> lim, i |-> 0]
      ELSE [k |-> IF v = {} THEN "blank" ELSE "tick", price |-> pu, i |-> u]

Fail(s, why) == [s EXCEPT !.st = "fail", !.why = why]

SwapSegment(s, T, K, pf, xy, byIn, lim, ts) ==
  LET stop == NextStop(DOMAIN T, s.p.tick, K.sp, xy, lim)
  IN IF stop.k = "end" THEN Fail(s, "tick limit")
  ELSE
  LET r == SwapStep(s.p.sp, stop.price, s.p.liq, s.rem, byIn, K.fee)
      rem1 == IF byIn THEN s.rem -- (r.in ++ r.fee) ELSE s.rem -- r.out
      f == AddFee(s.p, r.fee, xy, pf)
      in1 == Fit(s.in ++ (r.in ++ r.fee), 256)
      out1 == Fit(s.out ++ r.out, 256)
  IN IF IsNaN(r.next) \/ IsNaN(rem1) THEN Fail(s, "arithmetic")
  ELSE IF ~f.ok \/ IsNaN(in1) \/ IsNaN(out1) THEN Fail(s, "arithmetic")
  ELSE
  LET p1 == [f.p EXCEPT !.sp = r.next]
      s1 == [s EXCEPT !.p = p1, !.rem = rem1, !.in = in1, !.out = out1,
                      !.fee = @ ++ r.fee, !.n = @ + 1,
                      !.legs = Append(@, [from |-> s.p.sp, target |-> stop.price, to |-> r.next, liq |-> s.p.liq, amt |-> s.rem,
                                          in |-> r.in, out |-> r.out, fee |-> r.fee, dg |-> f.dg, prot |-> f.prot]),
                      !.segs = IF IsZero(r.fee) THEN @
                               ELSE Append(@, [tick |-> s.p.tick, x |-> xy, dg |-> f.dg, fee |-> r.fee, prot |-> f.prot])]
  IN IF r.next = lim /\ ~IsZero(rem1) THEN Fail(s1, "price limit")
  ELSE IF stop.k = "limit" \/ r.next # stop.price THEN
    IF ~PriceInRange(r.next) THEN Fail(s1, "arithmetic")
    ELSE LET t == TickAt(r.next, K.sp)
             \* a price that stayed on the tick just crossed downwards stays below it
             t1 == IF xy /\ t > s.p.tick THEN s.p.tick ELSE t
         IN  [s1 EXCEPT !.p.tick = t1]
  ELSE
  LET mv == PriceMoved(rem1, r.next, p1.liq, K.fee, byIn, xy)
      \* (an amount that would move the price out of its range, NaN, moves it)
      enough == IsZero(p1.liq) \/ mv # r.next
      tk == T[stop.i]
      s2 == IF stop.k = "blank" THEN s1
            ELSE IF ~xy \/ enough THEN
              LET c == Cross(tk, p1, xy, ts)
              IN  IF c.ok THEN [s1 EXCEPT !.p = c.p, !.crossed = Append(@, c.t)]
                  ELSE Fail(s1, "arithmetic")
            ELSE IF IsZero(rem1) THEN s1
            ELSE \* too little left to cross: an exact input is kept as a fee
              LET g == AddFee(p1, rem1, xy, pf)
              IN  IF ~byIn THEN [s1 EXCEPT !.rem = Zero]
                  ELSE IF ~g.ok \/ IsNaN(Fit(in1 ++ rem1, 256)) THEN Fail(s1, "arithmetic")
                  ELSE [s1 EXCEPT !.p = g.p, !.rem = Zero, !.in = @ ++ rem1,
                                  !.dust = rem1,
                                  !.legs = Append(@, [from |-> r.next, target |-> r.next, to |-> r.next, liq |-> p1.liq, amt |-> rem1,
                                                      in |-> Zero, out |-> Zero, fee |-> rem1, dg |-> g.dg, prot |-> g.prot]),
                                  !.segs = Append(@, [tick |-> s.p.tick, x |-> xy, dg |-> g.dg, fee |-> rem1, prot |-> g.prot])]
  IN IF s2.st = "fail" THEN s2
     ELSE [s2 EXCEPT !.p.tick = IF xy /\ enough THEN stop.i - K.sp ELSE stop.i]

Ended(s, K, xy) == IF xy THEN s.p.tick <= MinTick(K.sp) ELSE s.p.tick >= MaxTick(K.sp)

SwapLoop(s0, T, K, pf, xy, byIn, lim, ts) ==
  LET More(s) == s.st # "fail" /\ ~IsZero(s.rem)
      Body(s) == LET s1 == SwapSegment(s, T, K, pf, xy, byIn, lim, ts)
                 IN  IF s1.st # "fail" /\ Ended(s1, K, xy) THEN Fail(s1, "tick limit") ELSE s1
  IN  While(More, Body, s0)

(***************************************************************************)
(* A whole swap in pool p with ticks T.                                    *)
(***************************************************************************)
SwapFrom(p, T, K, pf, xy, amt, byIn, lim, ts) ==
  LET s0 == [p |-> p, rem |-> amt, in |-> Zero, out |-> Zero, fee |-> Zero, dust |-> Zero,
             crossed |-> <<>>, segs |-> <<>>, legs |-> <<>>, n |-> 0, st |-> "run", why |-> ""]
      wrong == IF xy THEN p.sp \preceq lim \/ lim \succ MAX_SQRT_PRICE
               ELSE lim \preceq p.sp \/ lim \prec MIN_SQRT_PRICE
  IN  IF IsZero(amt) THEN Fail(s0, "zero amount")
      ELSE IF wrong THEN Fail(s0, "wrong limit")
      ELSE LET s == SwapLoop(s0, T, K, pf, xy, byIn, lim, ts)
           IN  IF s.st = "fail" THEN s
               ELSE IF IsZero(s.out) THEN Fail(s, "no gain") ELSE s

SwapAt(a) == SwapFrom(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
Swap(p, T, K, pf, xy, amt, byIn, lim, ts) == Recall("swap", SwapAt, <<p, T, K, pf, xy, amt, byIn, lim, ts>>)

SwapOk(s) == s.st # "fail"

(***************************************************************************)
(* Ticks and positions.                                                    *)
(***************************************************************************)
NewTick(i, p, ts) ==
  LET below == i <= p.tick
  IN  [i |-> i, sign |-> TRUE, ch |-> Zero, gr |-> Zero, sp |-> SqrtPriceAt(i),
       fox |-> IF below THEN p.fgx ELSE Zero, foy |-> IF below THEN p.fgy ELSE Zero,
       so |-> IF below THEN ts -- p.st ELSE Zero]

\* net liquidity as a signed number [sign, ch]; zero has no sign
NetAdd(sign, ch, d, add) ==
  IF sign = add THEN [sign |-> sign, ch |-> ch ++ d]
  ELSE IF ch \succ d THEN [sign |-> sign, ch |-> ch -- d]
  ELSE [sign |-> ~sign, ch |-> d -- ch]

\* d more (or less) liquidity starts (lower) or ends (upper) at tick t
TickUpdate(t, d, open, upper, sp) ==
  LET g == IF open THEN Fit(t.gr ++ d, 256) ELSE t.gr -- d
      n == NetAdd(t.sign, t.ch, d, open # upper)
      ok == ~IsNaN(g) /\ ~IsNaN(Fit(n.ch, 256)) /\ (open => g \prec MaxLiqPerTick(sp))
  IN  [ok |-> ok, t |-> [t EXCEPT !.gr = g, !.sign = n.sign, !.ch = n.ch]]

\* fee growth inside lo..up per unit of liquidity, modulo 2^128
Inside(p, lo, up) ==
  LET Ins(g, ol, ou) ==
        LET b == IF p.tick >= lo.i THEN ol ELSE WSub(g, ol, 128)
            a == IF p.tick < up.i THEN ou ELSE WSub(g, ou, 128)
        IN  WSub(WSub(g, b, 128), a, 128)
  IN  [x |-> Ins(p.fgx, lo.fox, up.fox), y |-> Ins(p.fgy, lo.foy, up.foy)]

\* seconds the price has been inside lo..up, modulo 2^64, at time ts
SecondsInside(p, lo, up, ts) ==
  LET g == ts -- p.st
      b == IF p.tick >= lo.i THEN lo.so ELSE WSub(g, lo.so, 64)
      a == IF p.tick < up.i THEN up.so ELSE WSub(g, up.so, 64)
  IN  WSub(WSub(g, b, 64), a, 64)

\* change position q by d units of liquidity (open = TRUE adds)
Modify(q, p, lo, up, d, open, sp, ts) ==
  LET tl == TickUpdate(lo, d, open, FALSE, sp)
      tu == TickUpdate(up, d, open, TRUE, sp)
      g == Inside(p, lo, up)
      ox == FeeOf(WSub(g.x, q.fix, 128), q.liq)
      oy == FeeOf(WSub(g.y, q.fiy, 128), q.liq)
      l == IF open THEN Fit(q.liq ++ d, 256) ELSE q.liq -- d
      a == AmountsOf(p.tick, p.sp, d, open, lo.i, up.i)
      pl == IF ~a.in THEN p.liq ELSE IF open THEN Fit(p.liq ++ d, 256) ELSE p.liq -- d
      sx == Fit(q.ox ++ ox, 256)
      sy == Fit(q.oy ++ oy, 256)
      ok == /\ tl.ok /\ tu.ok
            /\ ~IsNaN(sx) /\ ~IsNaN(sy) /\ ~IsNaN(l) /\ ~IsNaN(pl)
            /\ ~IsNaN(a.x) /\ ~IsNaN(a.y)
            /\ ~(IsZero(d) /\ IsZero(q.liq))
  IN  [ok |-> ok, lo |-> tl.t, up |-> tu.t, x |-> a.x, y |-> a.y,
       p |-> [p EXCEPT !.liq = pl, !.lt = ts],
       q |-> [q EXCEPT !.liq = l, !.fix = g.x, !.fiy = g.y, !.ox = sx, !.oy = sy]]

CreatePool(K, tick, sqrt, ts, admin) ==
  IF ~ValidTick(tick, K.sp) \/ ~PriceInTick(tick, K.sp, sqrt) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE,
        p |-> [liq |-> Zero, sp |-> SqrtPriceAt(tick), tick |-> tick, fgx |-> Zero, fgy |-> Zero,
               fpx |-> Zero, fpy |-> Zero, st |-> ts, lt |-> ts, rcv |-> admin]]
=============================================================================
