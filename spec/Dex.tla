--------------------------------- MODULE Dex ---------------------------------
(***************************************************************************)
(* The exchange: every operation a user, the administrator or a token      *)
(* program can perform on it, as a function from (state, operation) to     *)
(* (outcome, next state, result, events, token transfer requests).         *)
(*                                                                         *)
(* State S:                                                                *)
(*   pf      protocol fee          tiers  <<[fee, sp]>>  (in order)        *)
(*   keys    <<pool name>>         pools  [name -> pool]                   *)
(*   ticks   [name -> [i -> tick]]                                         *)
(*   pos     [user -> <<position>>]                                        *)
(*   bal     [user -> [token -> amount]]   (no zero entries)               *)
(*   nb      native coins held by the program                              *)
(*   aw      [transfer id -> [who, tok, amt, dep, mid]]  unsettled         *)
(*   wt      [message id -> [o, kids, ans, dl, res]]     callers waiting   *)
(*   nk      number of transfer requests made so far                       *)
(*   pk      [name -> [x, y, fee, sp]]     what the pool names mean        *)
(***************************************************************************)
EXTENDS Pool, FiniteSets, TLC

Admin == "u0"
Self == "self"
Vara == "vara"
U16Max == 65535
TransferCost == N("42400200000")    \* gas one token transfer must leave room for
WaitBlocks == 100                   \* how long a caller waits for a token

Bal(S, u, t) == IF u \in DOMAIN S.bal /\ t \in DOMAIN S.bal[u] THEN S.bal[u][t] ELSE Zero
Pos(S, u) == IF u \in DOMAIN S.pos THEN S.pos[u] ELSE <<>>
Ticks(S, n) == IF n \in DOMAIN S.ticks THEN S.ticks[n] ELSE <<>>
HasPool(S, n) == n \in DOMAIN S.pools
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(o, k) == k \in DOMAIN o
SetBal(S, u, t, a) ==
  LET b == IF u \in DOMAIN S.bal THEN S.bal[u] ELSE <<>>
  IN  [S EXCEPT !.bal = Put(@, u, IF IsZero(a) THEN Del(b, t) ELSE Put(b, t, a))]

\* crediting and debiting; NaN amounts or results mean the operation fails
CanCredit(S, u, t, a) == ~IsNaN(Fit(Bal(S, u, t) ++ a, 256))
Credit(S, u, t, a) == SetBal(S, u, t, Bal(S, u, t) ++ a)
CanDebit(S, u, t, a) == IsZero(a) \/ a \preceq Bal(S, u, t)
Debit(S, u, t, a) == IF IsZero(a) THEN S ELSE SetBal(S, u, t, Bal(S, u, t) -- a)

R0(S) == [out |-> "fail", S |-> S, res |-> "none", ev |-> <<>>, msgs |-> <<>>, fin |-> <<>>, segs |-> <<>>]
Refuse(S) == R0(S)
Done(S, res) == [R0(S) EXCEPT !.out = "ok", !.res = res]
DoneEv(S, res, ev) == [R0(S) EXCEPT !.out = "ok", !.res = res, !.ev = ev]
Err == [err |-> "some"]                     \* a query's error answer

IsAdmin(o) == o.who = Admin
FindKey(S, a, b, fee, sp) ==
  LET c == {n \in DOMAIN S.pk : /\ {S.pk[n].x, S.pk[n].y} = {a, b}
                                /\ S.pk[n].fee = fee /\ S.pk[n].sp = sp}
  IN  IF c = {} THEN "none" ELSE CHOOSE n \in c : TRUE
HasTier(S, fee, sp) == \E i \in DOMAIN S.tiers : S.tiers[i].fee = fee /\ S.tiers[i].sp = sp

(***************************************************************************)
(* Configuration (P18, P19)                                                *)
(***************************************************************************)
SetPf(S, o) == IF IsAdmin(o) THEN Done([S EXCEPT !.pf = o.v], o.v) ELSE Refuse(S)

AddTier(S, o) ==
  IF \/ o.sp = 0 \/ o.sp > 100 \/ ~(o.fee \prec E12) \/ ~IsAdmin(o) \/ HasTier(S, o.fee, o.sp)
  THEN Refuse(S)
  ELSE Done([S EXCEPT !.tiers = Append(@, [fee |-> o.fee, sp |-> o.sp])], [fee |-> o.fee, sp |-> o.sp])

RmTier(S, o) ==
  IF ~IsAdmin(o) \/ ~HasTier(S, o.fee, o.sp) THEN Refuse(S)
  ELSE Done([S EXCEPT !.tiers = SelectSeq(@, LAMBDA t : ~(t.fee = o.fee /\ t.sp = o.sp))],
            [fee |-> o.fee, sp |-> o.sp])

CreatePoolOp(S, o) ==
  LET n == FindKey(S, o.t0, o.t1, o.fee, o.sp)
  IN  IF ~HasTier(S, o.fee, o.sp) \/ o.t0 = o.t1 \/ n = "none" THEN Refuse(S)
      ELSE IF HasPool(S, n) THEN Refuse(S)
      ELSE LET c == CreatePool(S.pk[n], o.tick, o.sqrt, o.ts, Admin)
           IN  IF ~c.ok THEN Refuse(S)
               ELSE Done([S EXCEPT !.keys = Append(@, n), !.pools = Put(@, n, c.p),
                                   !.ticks = Put(@, n, <<>>)], "unit")

SetRcv(S, o) ==
  IF ~IsAdmin(o) \/ ~HasPool(S, o.pool) THEN Refuse(S)
  ELSE Done([S EXCEPT !.pools[o.pool].rcv = o.rcv], "unit")

WithdrawProtocolFee(S, o) ==
  IF ~HasPool(S, o.pool) THEN Refuse(S)
  ELSE LET p == S.pools[o.pool]
           K == S.pk[o.pool]
       IN  IF p.rcv # o.who \/ ~CanCredit(S, o.who, K.x, p.fpx) \/ ~CanCredit(S, o.who, K.y, p.fpy)
           THEN Refuse(S)
           ELSE Done(Credit(Credit([S EXCEPT !.pools[o.pool].fpx = Zero, !.pools[o.pool].fpy = Zero],
                                   o.who, K.x, p.fpx), o.who, K.y, p.fpy), "unit")

(***************************************************************************)
(* Positions (P08, P10, P11)                                               *)
(***************************************************************************)
PutTick(ts, t) == IF IsZero(t.gr) THEN Del(ts, t.i) ELSE Put(ts, t.i, t)
KeepTick(ts, t) == Put(ts, t.i, t)

SwapRemove(s, i) ==          \* 1-based: the last entry takes the free place
  LET n == Len(s) IN SubSeq([s EXCEPT ![i] = s[n]], 1, n - 1)

Open(S, o) ==
  IF IsZero(o.liq) \/ o.lo >= o.up \/ ~HasPool(S, o.pool) THEN Refuse(S)
  ELSE
  LET K == S.pk[o.pool]
      p == S.pools[o.pool]
      T == Ticks(S, o.pool)
      Tick(i) == IF i \in DOMAIN T THEN T[i] ELSE NewTick(i, p, o.ts)
      q0 == [pool |-> o.pool, liq |-> Zero, lo |-> o.lo, up |-> o.up, fix |-> Zero, fiy |-> Zero,
             blk |-> N(o.blk), ox |-> Zero, oy |-> Zero]
  IN IF ~ValidTick(o.lo, K.sp) \/ ~ValidTick(o.up, K.sp) THEN Refuse(S)
     ELSE IF p.sp \prec o.slo \/ p.sp \succ o.sup THEN Refuse(S)
     ELSE
     LET m == Modify(q0, p, Tick(o.lo), Tick(o.up), o.liq, TRUE, K.sp, o.ts)
     IN IF ~m.ok THEN Refuse(S)
        ELSE IF ~CanDebit(S, o.who, K.x, m.x) \/ ~CanDebit(S, o.who, K.y, m.y) THEN Refuse(S)
        ELSE DoneEv(
          Debit(Debit([S EXCEPT !.pools[o.pool] = m.p,
                                !.ticks = Put(@, o.pool, KeepTick(KeepTick(T, m.lo), m.up)),
                                !.pos = Put(@, o.who, Append(Pos(S, o.who), m.q))],
                      o.who, K.x, m.x), o.who, K.y, m.y),
          m.q,
          <<[e |-> "created", ts |-> o.ts, who |-> o.who, pool |-> o.pool, liq |-> o.liq,
             lo |-> o.lo, up |-> o.up, sp |-> p.sp]>>)

HasPos(S, u, i) == i + 1 \in DOMAIN Pos(S, u)

CloseAmounts(S, q, ts) ==
  LET T == Ticks(S, q.pool)
      m == Modify(q, S.pools[q.pool], T[q.lo], T[q.up], q.liq, FALSE, S.pk[q.pool].sp, ts)
  IN  [m EXCEPT !.x = Fit(@ ++ m.q.ox, 256), !.y = Fit(@ ++ m.q.oy, 256)]

Close(S, o) ==
  IF ~HasPos(S, o.who, o.i) THEN Refuse(S)
  ELSE
  LET q == S.pos[o.who][o.i + 1]
      K == S.pk[q.pool]
      T == Ticks(S, q.pool)
      m == CloseAmounts(S, q, o.ts)
  IN IF ~m.ok \/ IsNaN(m.x) \/ IsNaN(m.y) THEN Refuse(S)
     ELSE IF ~CanCredit(S, o.who, K.x, m.x) \/ ~CanCredit(S, o.who, K.y, m.y) THEN Refuse(S)
     ELSE DoneEv(
       Credit(Credit([S EXCEPT !.pools[q.pool] = m.p,
                               !.ticks = Put(@, q.pool, PutTick(PutTick(T, m.lo), m.up)),
                               !.pos[o.who] = SwapRemove(@, o.i + 1)],
                     o.who, K.x, m.x), o.who, K.y, m.y),
       <<m.x, m.y>>,
       <<[e |-> "removed", ts |-> o.ts, who |-> o.who, pool |-> q.pool, liq |-> q.liq,
          lo |-> q.lo, up |-> q.up, sp |-> S.pools[q.pool].sp]>>)

Claim(S, o) ==
  IF ~HasPos(S, o.who, o.i) THEN Refuse(S)
  ELSE
  LET q == S.pos[o.who][o.i + 1]
      K == S.pk[q.pool]
      T == Ticks(S, q.pool)
      m == Modify(q, S.pools[q.pool], T[q.lo], T[q.up], Zero, TRUE, K.sp, o.ts)
  IN IF ~m.ok THEN Refuse(S)
     ELSE IF ~CanCredit(S, o.who, K.x, m.q.ox) \/ ~CanCredit(S, o.who, K.y, m.q.oy) THEN Refuse(S)
     ELSE Done(
       Credit(Credit([S EXCEPT !.pools[q.pool] = m.p,
                               !.pos[o.who][o.i + 1] = [m.q EXCEPT !.ox = Zero, !.oy = Zero]],
                     o.who, K.x, m.q.ox), o.who, K.y, m.q.oy),
       <<m.q.ox, m.q.oy>>)

Transfer(S, o) ==
  IF ~HasPos(S, o.who, o.i) THEN Refuse(S)
  ELSE LET q == S.pos[o.who][o.i + 1]
           S1 == [S EXCEPT !.pos[o.who] = SwapRemove(@, o.i + 1)]
       IN  Done([S1 EXCEPT !.pos = Put(@, o.to, Append(Pos(S1, o.to), q))], "unit")

(***************************************************************************)
(* Swaps (P03, P04, P12, P13)                                              *)
(***************************************************************************)
RunSwap(S, n, xy, amt, byIn, lim, ts) ==
  Swap(S.pools[n], Ticks(S, n), S.pk[n], S.pf, xy, amt, byIn, lim, ts)

RECURSIVE ApplyCrossed(_, _)
ApplyCrossed(T, c) == IF c = <<>> THEN T ELSE ApplyCrossed(Put(T, Head(c).i, Head(c)), Tail(c))

CrossedIndexes(c) == [k \in 1..Len(c) |-> c[k].i]

\* the swap of one hop by user u; r.out = "fail" when refused
SwapBy(S, u, n, xy, amt, byIn, lim, ts) ==
  IF ~HasPool(S, n) THEN Refuse(S)
  ELSE
  LET s == RunSwap(S, n, xy, amt, byIn, lim, ts)
      K == S.pk[n]
      ti == IF xy THEN K.x ELSE K.y
      to == IF xy THEN K.y ELSE K.x
  IN IF ~SwapOk(s) THEN Refuse(S)
     ELSE IF ~CanDebit(S, u, ti, s.in) \/ ~CanCredit(S, u, to, s.out) THEN Refuse(S)
     ELSE
     [DoneEv(Credit(Debit([S EXCEPT !.pools[n] = s.p, !.ticks = Put(@, n, ApplyCrossed(Ticks(S, n), s.crossed))],
                         u, ti, s.in), u, to, s.out),
            [in |-> s.in, out |-> s.out, s0 |-> S.pools[n].sp, s1 |-> s.p.sp, fee |-> s.fee,
             pool |-> s.p, ticks |-> s.crossed],
            (IF s.crossed = <<>> THEN <<>>
             ELSE <<[e |-> "cross", ts |-> ts, who |-> u, pool |-> n, idx |-> CrossedIndexes(s.crossed)]>>)
            \o <<[e |-> "swap", ts |-> ts, who |-> u, pool |-> n, in |-> s.in, out |-> s.out, fee |-> s.fee,
                  s0 |-> S.pools[n].sp, s1 |-> s.p.sp, xy |-> xy]>>)
       EXCEPT !.segs = [k \in 1..Len(s.segs) |-> [pool |-> n, tick |-> s.segs[k].tick, x |-> xy, dg |-> s.segs[k].dg,
                                                  fee |-> s.segs[k].fee, prot |-> s.segs[k].prot]]]

SwapOp(S, o) == SwapBy(S, o.who, o.pool, o.xy, o.amt, o.in, o.lim, o.ts)

Quote(S, o) ==
  IF ~HasPool(S, o.pool) THEN Done(S, Err)
  ELSE LET s == RunSwap(S, o.pool, o.xy, o.amt, o.in, o.lim, o.ts)
       IN  IF ~SwapOk(s) THEN Done(S, Err)
           ELSE Done(S, [in |-> s.in, out |-> s.out, s1 |-> s.p.sp, ticks |-> s.crossed])

EndLimit(xy) == IF xy THEN MIN_SQRT_PRICE ELSE MAX_SQRT_PRICE

RECURSIVE RouteFrom(_, _, _, _)
RouteFrom(R, o, amt, k) ==      \* R: what happened so far; hop k is next
  IF k > Len(o.hops) THEN [R EXCEPT !.out = "ok", !.res = amt]
  ELSE LET h == o.hops[k]
           r == SwapBy(R.S, o.who, h.pool, h.xy, amt, TRUE, EndLimit(h.xy), o.ts)
       IN  IF r.out # "ok" THEN [R EXCEPT !.out = "fail"]
           ELSE RouteFrom([r EXCEPT !.ev = R.ev \o r.ev, !.segs = R.segs \o r.segs], o, r.res.out, k + 1)

Route(S, o) ==
  LET r == RouteFrom(R0(S), o, o.amt, 1)
      min == MulUp(o.exp, E12 -- o.slip, E12)
  IN  IF r.out = "ok" /\ min \preceq r.res THEN r ELSE Refuse(S)

RECURSIVE QuoteRouteFrom(_, _, _, _)
QuoteRouteFrom(S, o, amt, k) ==
  IF k > Len(o.hops) THEN amt
  ELSE LET h == o.hops[k]
       IN  IF ~HasPool(S, h.pool) THEN NaN
           ELSE LET s == RunSwap(S, h.pool, h.xy, amt, TRUE, EndLimit(h.xy), o.ts)
                IN  IF SwapOk(s) THEN QuoteRouteFrom(S, o, s.out, k + 1) ELSE NaN
QuoteRoute(S, o) ==
  LET a == QuoteRouteFrom(S, o, o.amt, 1) IN Done(S, IF IsNaN(a) THEN Err ELSE a)

(***************************************************************************)
(* The native coin (P17)                                                   *)
(***************************************************************************)
DepVara(S, o) ==
  IF ~CanCredit(S, o.who, Vara, o.amt) THEN Refuse(S)
  ELSE Done(Credit([S EXCEPT !.nb = @ ++ o.amt], o.who, Vara, o.amt), o.amt)

WdVara(S, o) ==
  LET a == IF IsBig(o.amt) THEN o.amt ELSE Bal(S, o.who, Vara)
  IN  IF (IsBig(o.amt) /\ IsZero(o.amt)) \/ ~CanDebit(S, o.who, Vara, a) \/ IsNaN(S.nb -- a) THEN Refuse(S)
      ELSE Done([Debit(S, o.who, Vara, a) EXCEPT !.nb = @ -- a], a)

(***************************************************************************)
(* Token deposits and withdrawals (P15, P16): the token program is asked   *)
(* to move the tokens; its answer comes later, in any order, or never.     *)
(***************************************************************************)
Gas(o) == IF Has(o, "gas") THEN o.gas ELSE N("700000000000")

\* ask for transfers q = << [tok, amt] >> (one or two) on behalf of o.who
Ask(S, o, q, dep, res) ==
  IF \/ \E k \in DOMAIN q : q[k].tok = Vara \/ IsZero(q[k].amt)
     \/ Gas(o) \prec (TransferCost ** N(Len(q)))
  THEN [ok |-> FALSE]
  ELSE
  LET kid(k) == "k" \o ToString(S.nk + k - 1)
      new == [x \in {kid(k) : k \in DOMAIN q} |->
                LET k == CHOOSE j \in DOMAIN q : kid(j) = x
                IN [who |-> o.who, tok |-> q[k].tok, amt |-> q[k].amt, dep |-> dep, mid |-> o.id]]
  IN [ok |-> TRUE,
      r |-> [R0([S EXCEPT !.aw = new @@ @,
                          !.nk = @ + Len(q),
                          !.wt = Put(@, o.id, [op |-> o.op, kids |-> [k \in DOMAIN q |-> kid(k)], ans |-> <<>>,
                                               dl |-> o.blk + WaitBlocks, res |-> res])])
             EXCEPT !.out = "wait",
                    !.msgs = [k \in DOMAIN q |->
                               [id |-> kid(k), tok |-> q[k].tok, amt |-> q[k].amt, val |-> Zero,
                                from |-> IF dep THEN o.who ELSE Self, to |-> IF dep THEN Self ELSE o.who]]]]

AskOr(S0, S, o, q, dep, res) ==
  IF q = <<>> THEN Done(S, res)
  ELSE LET a == Ask(S, o, q, dep, res) IN IF a.ok THEN a.r ELSE Refuse(S0)

Dep1(S, o) ==
  IF ~CanCredit(S, o.who, o.tok, o.amt) THEN Refuse(S)
  ELSE AskOr(S, S, o, <<[tok |-> o.tok, amt |-> o.amt]>>, TRUE, o.amt)

NonZero(q) == SelectSeq(q, LAMBDA t : ~IsZero(t.amt))

Dep2(S, o) ==
  IF o.tx = o.ty \/ ~CanCredit(S, o.who, o.tx, o.ax) \/ ~CanCredit(S, o.who, o.ty, o.ay) THEN Refuse(S)
  ELSE AskOr(S, S, o, NonZero(<<[tok |-> o.tx, amt |-> o.ax], [tok |-> o.ty, amt |-> o.ay]>>), TRUE, <<o.ax, o.ay>>)

Wanted(S, o, t, a) == IF IsBig(a) THEN a ELSE Bal(S, o.who, t)

Wd1(S, o) ==
  LET a == Wanted(S, o, o.tok, o.amt)
  IN  IF (IsBig(o.amt) /\ IsZero(o.amt)) \/ ~CanDebit(S, o.who, o.tok, a) THEN Refuse(S)
      ELSE AskOr(S, Debit(S, o.who, o.tok, a), o, NonZero(<<[tok |-> o.tok, amt |-> a]>>), FALSE, a)

Wd2(S, o) ==
  LET ax == Wanted(S, o, o.tx, o.ax)
      ay == Wanted(S, o, o.ty, o.ay)
  IN  IF o.tx = o.ty \/ ~CanDebit(S, o.who, o.tx, ax) \/ ~CanDebit(S, o.who, o.ty, ay) THEN Refuse(S)
      ELSE AskOr(S, Debit(Debit(S, o.who, o.tx, ax), o.who, o.ty, ay), o,
                 NonZero(<<[tok |-> o.tx, amt |-> ax], [tok |-> o.ty, amt |-> ay]>>), FALSE, <<ax, ay>>)

(* What an answer of the token program means. *)
Confirms(kind) == kind = "true"
Rejects(kind) == kind \in {"false", "panic", "panic_raw", "oog", "nocode", "empty_err", "err_true"}
\* anything else ("garbage", ...) says nothing: neither confirmed nor refused

\* settle transfer k by an answer that confirms or rejects it
Settle(S, k, ok) ==
  LET t == S.aw[k]
      S1 == [S EXCEPT !.aw = Del(@, k)]
  IN  IF t.dep = ok /\ CanCredit(S1, t.who, t.tok, t.amt) THEN Credit(S1, t.who, t.tok, t.amt) ELSE S1

\* the caller of message m is answered (a transfer without answer: "rhf")
Finish(S, m) ==
  LET w == S.wt[m]
      A(k) == IF k \in DOMAIN w.ans THEN w.ans[k] ELSE "rhf"
      ks == {w.kids[k] : k \in DOMAIN w.kids}
      res == IF \E k \in ks : A(k) = "rhf" THEN "soft"
             ELSE IF \A k \in ks : A(k) = "ok" THEN "ok" ELSE "fail"
      gone == {k \in ks : k \in DOMAIN w.ans}    \* answered: nothing more will come
  IN  [S |-> [S EXCEPT !.wt = Del(@, m), !.aw = [k \in DOMAIN @ \ gone |-> @[k]]],
       fin |-> [id |-> m, op |-> w.op, out |-> res, res |-> w.res]]

Reply(S, o) ==
  LET settled == Confirms(o.kind) \/ Rejects(o.kind)
      m == IF o.id \in DOMAIN S.aw THEN S.aw[o.id].mid ELSE "none"
      S1 == IF o.id \in DOMAIN S.aw /\ settled THEN Settle(S, o.id, Confirms(o.kind)) ELSE S
      S2 == IF m \in DOMAIN S.wt
            THEN [S1 EXCEPT !.wt[m].ans = Put(@, o.id, IF ~settled THEN "rhf" ELSE IF Confirms(o.kind) THEN "ok" ELSE "bad")]
            ELSE [S1 EXCEPT !.aw = Del(@, o.id)]     \* nothing more will come
  IN  IF m \in DOMAIN S2.wt /\ Cardinality(DOMAIN S2.wt[m].ans) = Len(S2.wt[m].kids)
      THEN LET f == Finish(S2, m) IN [Done(f.S, "none") EXCEPT !.fin = <<f.fin>>]
      ELSE Done(S2, "none")

RECURSIVE Expire(_, _)
Expire(R, blk) ==
  LET due == {m \in DOMAIN R.S.wt : R.S.wt[m].dl <= blk}
  IN  IF due = {} THEN R
      ELSE LET f == Finish(R.S, CHOOSE m \in due : TRUE)
           IN  Expire([R EXCEPT !.S = f.S, !.fin = Append(@, f.fin)], blk)
TimePasses(S, o) == Expire(Done(S, "none"), o.blk)

(***************************************************************************)
(* Queries (P20): all of them are functions of the state.                  *)
(***************************************************************************)
Slice(s, off, size) ==
  LET m == IF off + size > Len(s) THEN Len(s) ELSE off + size IN SubSeq(s, off + 1, m)

PoolQ(S, n) == IF n # "none" /\ HasPool(S, n) THEN S.pools[n] ELSE Err
Associates(S, q) == <<q, S.pools[q.pool], S.ticks[q.pool][q.lo], S.ticks[q.pool][q.up]>>
TickView(t) == [i |-> t.i, fox |-> t.fox, foy |-> t.foy, so |-> t.so]

RECURSIVE Group(_, _, _, _, _)
Group(S, own, k, last, g) ==     \* positions k..last, grouped by pool in order of appearance
  IF k > last THEN g
  ELSE LET q == Pos(S, own)[k]
           e == <<q, k - 1>>
           at == {j \in DOMAIN g : g[j][2][1][1].pool = q.pool}
       IN  Group(S, own, k + 1, last,
             IF at = {} THEN Append(g, <<S.pools[q.pool], <<e>>>>)
             ELSE LET j == CHOOSE x \in at : TRUE IN [g EXCEPT ![j] = <<@[1], Append(@[2], e)>>])

RECURSIVE TickViews(_, _, _, _)
TickViews(S, own, k, acc) ==
  IF k > Len(Pos(S, own)) THEN acc
  ELSE LET q == Pos(S, own)[k]
           T == S.ticks[q.pool]
       IN  TickViews(S, own, k + 1, acc \o <<TickView(T[q.lo]), TickView(T[q.up])>>)

\* the bitmap: the set of <<chunk, bit>> that are set
Bitmap(S, n) == {<<Chunk(t, S.pk[n].sp), Bit(t, S.pk[n].sp)>> : t \in DOMAIN Ticks(S, n)}

PairPools(S, a, b) ==
  LET N0 == SelectSeq(S.tiers, LAMBDA t : LET n == FindKey(S, a, b, t.fee, t.sp) IN n # "none" /\ HasPool(S, n))
  IN  [k \in DOMAIN N0 |-> <<N0[k].fee, N0[k].sp, S.pools[FindKey(S, a, b, N0[k].fee, N0[k].sp)]>>]

Query(S, o) ==
  CASE o.op = "get_pf" -> Done(S, S.pf)
    [] o.op = "get_tiers" -> Done(S, S.tiers)
    [] o.op = "tier_exists" -> Done(S, HasTier(S, o.fee, o.sp))
    [] o.op = "get_pool" -> Done(S, IF o.t0 = o.t1 THEN Err ELSE PoolQ(S, FindKey(S, o.t0, o.t1, o.fee, o.sp)))
    [] o.op = "get_keys" -> IF o.size + o.off > U16Max THEN Refuse(S)
                            ELSE Done(S, <<Slice(S.keys, o.off, o.size), Len(S.keys)>>)
    [] o.op = "get_pos" -> Done(S, IF HasPos(S, o.own, o.i) THEN S.pos[o.own][o.i + 1] ELSE Err)
    [] o.op = "get_posa" -> Done(S, IF HasPos(S, o.own, o.i) THEN Associates(S, S.pos[o.own][o.i + 1]) ELSE Err)
    [] o.op = "get_tick" -> Done(S, IF o.i \in DOMAIN Ticks(S, o.pool) THEN S.ticks[o.pool][o.i] ELSE Err)
    [] o.op = "tick_init" -> IF Abs(o.i) > MAX_TICK \/ o.i % S.pk[o.pool].sp # 0 THEN Refuse(S)
                             ELSE Done(S, o.i \in DOMAIN Ticks(S, o.pool))
    [] o.op = "get_all_pos" -> Done(S, Pos(S, o.own))
    [] o.op = "pos_count" -> Done(S, Len(Pos(S, o.own)))
    [] o.op = "get_bal" -> Done(S, IF o.own \in DOMAIN S.bal THEN S.bal[o.own] ELSE <<>>)
    [] o.op = "get_positions" ->
         LET n == Len(Pos(S, o.own)) IN
         Done(S, <<Group(S, o.own, o.off + 1, IF o.off + o.size > n THEN n ELSE o.off + o.size, <<>>), n>>)
    [] o.op = "tick_count" -> Done(S, Cardinality(DOMAIN Ticks(S, o.pool)))
    [] o.op = "get_tickmap" -> Done(S, Bitmap(S, o.pool))
    [] o.op = "pools_pair" -> Done(S, IF o.t0 = o.t1 /\ S.tiers # <<>> THEN Err ELSE PairPools(S, o.t0, o.t1))
    [] o.op = "liq_ticks" ->
         IF \E k \in DOMAIN o.ticks : o.ticks[k] \notin DOMAIN Ticks(S, o.pool) THEN Refuse(S)
         ELSE Done(S, [k \in DOMAIN o.ticks |-> LET t == S.ticks[o.pool][o.ticks[k]]
                                                IN [i |-> t.i, ch |-> t.ch, sign |-> t.sign]])
    [] o.op = "pos_ticks" -> Done(S, TickViews(S, o.own, o.off + 1, <<>>))
    [] o.op = "quote" -> Quote(S, o)
    [] o.op = "quote_route" -> QuoteRoute(S, o)

Queries == {"get_pf", "get_tiers", "tier_exists", "get_pool", "get_keys", "get_pos", "get_posa", "get_tick",
  "tick_init", "get_all_pos", "pos_count", "get_bal", "get_positions", "tick_count", "get_tickmap",
  "pools_pair", "liq_ticks", "pos_ticks", "quote", "quote_route"}

Step0(S, o) ==
  CASE o.op = "set_pf" -> SetPf(S, o)
    [] o.op = "add_tier" -> AddTier(S, o)
    [] o.op = "rm_tier" -> RmTier(S, o)
    [] o.op = "create_pool" -> CreatePoolOp(S, o)
    [] o.op = "set_rcv" -> SetRcv(S, o)
    [] o.op = "wpf" -> WithdrawProtocolFee(S, o)
    [] o.op = "open" -> Open(S, o)
    [] o.op = "close" -> Close(S, o)
    [] o.op = "claim" -> Claim(S, o)
    [] o.op = "transfer" -> Transfer(S, o)
    [] o.op = "swap" -> SwapOp(S, o)
    [] o.op = "route" -> Route(S, o)
    [] o.op = "dep_vara" -> DepVara(S, o)
    [] o.op = "wd_vara" -> WdVara(S, o)
    [] o.op = "dep1" -> Dep1(S, o)
    [] o.op = "dep2" -> Dep2(S, o)
    [] o.op = "wd1" -> Wd1(S, o)
    [] o.op = "wd2" -> Wd2(S, o)
    [] o.op = "reply" -> Reply(S, o)
    [] o.op = "tick" -> TimePasses(S, o)
    [] o.op \in Queries -> Query(S, o)

\* value attached to an operation that does not ask for any stays with the program
Step(S, o) ==
  LET r == Step0(S, o)
  IN  IF Has(o, "val") /\ r.out \in {"ok", "wait"} THEN [r EXCEPT !.S.nb = @ ++ o.val] ELSE r

S0(pf, pk, users) ==
  [pf |-> pf, tiers |-> <<>>, keys |-> <<>>, pools |-> <<>>, ticks |-> <<>>,
   pos |-> [u \in users |-> <<>>], bal |-> [u \in users |-> <<>>],
   nb |-> Zero, aw |-> <<>>, wt |-> <<>>, nk |-> 0, pk |-> pk]
=============================================================================
