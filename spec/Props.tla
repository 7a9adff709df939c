-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* What must hold in every state o of the exchange (and between            *)
(* neighbouring states), whether the state was reached by the              *)
(* specification (module MC) or observed on the compiled contract (module  *)
(* Trace).                                                                 *)
(***************************************************************************)
EXTENDS Dex

NormTick(t) == IF IsZero(t.ch) THEN [t EXCEPT !.sign = TRUE] ELSE t
NormTicks(T) == [k \in DOMAIN T |-> NormTick(T[k])]
SetOf(q) == {q[k] : k \in DOMAIN q}
BitSet(l) == UNION {{<<l[k][1], b>> : b \in SetOf(l[k][2])} : k \in DOMAIN l}

Old(f, n, v) == IF n \in DOMAIN f THEN f[n] ELSE v

(***************************************************************************)
(* A state the invariants and the specification can be evaluated on.       *)
(***************************************************************************)
PosOk(o, q) == /\ q.pool \in DOMAIN o.pools
               /\ q.lo \in DOMAIN Old(o.ticks, q.pool, <<>>)
               /\ q.up \in DOMAIN Old(o.ticks, q.pool, <<>>)
Dangling(o) == \E u \in DOMAIN o.pos : \E k \in DOMAIN o.pos[u] : ~PosOk(o, o.pos[u][k])
Shown(o) == o.errs = <<>>
WF(o, pk) == /\ Shown(o) /\ ~Dangling(o)
             /\ DOMAIN o.pools = SetOf(o.keys) /\ DOMAIN o.pools \subseteq DOMAIN pk

(***************************************************************************)
(* Sums                                                                    *)
(***************************************************************************)
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN Zero ELSE LET e == CHOOSE x \in s : TRUE IN f[e] ++ SumSet(f, s \ {e})

AllPos(o) == UNION {{<<u, k>> : k \in DOMAIN o.pos[u]} : u \in DOMAIN o.pos}
PosAt(o, e) == o.pos[e[1]][e[2]]
PosIn(o, n) == {e \in AllPos(o) : PosAt(o, e).pool = n}
LiqSum(o, s) == SumSet([e \in s |-> PosAt(o, e).liq], s)

(***************************************************************************)
(* P05: active liquidity and tick sums; P06: bitmap                        *)
(***************************************************************************)
LiqOk(o, n) ==
  LET p == o.pools[n]
      in == {e \in PosIn(o, n) : PosAt(o, e).lo <= p.tick /\ p.tick < PosAt(o, e).up}
  IN  p.liq = LiqSum(o, in)
TickSums(o, n) ==
  LET T == Old(o.ticks, n, <<>>)
      P == PosIn(o, n)
      U == {PosAt(o, e).lo : e \in P} \cup {PosAt(o, e).up : e \in P}
  IN  /\ DOMAIN T = U
      /\ \A t \in U :
           LET a == LiqSum(o, {e \in P : PosAt(o, e).lo = t})
               b == LiqSum(o, {e \in P : PosAt(o, e).up = t})
           IN  /\ T[t].gr = a ++ b
               /\ T[t].ch = Dist(a, b)
               /\ (a # b => T[t].sign = (b \prec a))
               /\ T[t].i = t
BitsOk(o, n, sp) == Old(o.bits, n, {}) = {<<Chunk(t, sp), Bit(t, sp)>> : t \in DOMAIN Old(o.ticks, n, <<>>)}

(***************************************************************************)
(* P04: price and current tick                                             *)
(***************************************************************************)
Coherent(p, sp) ==
  /\ p.tick % sp = 0 /\ Abs(p.tick) <= MAX_TICK
  /\ PriceInRange(p.sp)
  /\ SqrtPriceAt(p.tick) \preceq p.sp
  /\ IF p.tick + sp > MAX_TICK THEN TRUE ELSE p.sp \preceq SqrtPriceAt(p.tick + sp)

(***************************************************************************)
(* Claimable fees and principal of a position in an observed state         *)
(***************************************************************************)
Fees(o, q) ==
  LET T == o.ticks[q.pool]
      g == Inside(o.pools[q.pool], T[q.lo], T[q.up])
  IN  [x |-> q.ox ++ FeeOf(WSub(g.x, q.fix, 128), q.liq), y |-> q.oy ++ FeeOf(WSub(g.y, q.fiy, 128), q.liq)]
Growth(o, q) ==
  LET T == o.ticks[q.pool]
      g == Inside(o.pools[q.pool], T[q.lo], T[q.up])
  IN  <<WSub(g.x, q.fix, 128), WSub(g.y, q.fiy, 128)>>
Principal(o, q) == AmountsOf(o.pools[q.pool].tick, o.pools[q.pool].sp, q.liq, FALSE, q.lo, q.up)

(***************************************************************************)
(* P01: what the exchange owes in token t                                  *)
(***************************************************************************)
OwedPos(o, pk, e, t) ==
  LET q == PosAt(o, e)
      f == Fees(o, q)
      a == Principal(o, q)
  IN  (IF pk[q.pool].x = t THEN f.x ++ a.x ELSE Zero) ++ (IF pk[q.pool].y = t THEN f.y ++ a.y ELSE Zero)
Owed(o, g, pk, t) ==
  LET P == {e \in AllPos(o) : pk[PosAt(o, e).pool].x = t \/ pk[PosAt(o, e).pool].y = t}
      B == {u \in DOMAIN o.bal : t \in DOMAIN o.bal[u]}
      X == {n \in DOMAIN o.pools : pk[n].x = t}
      Y == {n \in DOMAIN o.pools : pk[n].y = t}
      \* withdrawals under way, unless answered by something unintelligible
      W == {k \in DOMAIN g.aw : /\ ~g.aw[k].dep /\ g.aw[k].tok = t
                               /\ ~(g.aw[k].mid \in DOMAIN g.wt /\ k \in DOMAIN g.wt[g.aw[k].mid].ans)}
  IN  SumSet([e \in P |-> OwedPos(o, pk, e, t)], P) ++ SumSet([u \in B |-> o.bal[u][t]], B)
      ++ SumSet([n \in X |-> o.pools[n].fpx], X) ++ SumSet([n \in Y |-> o.pools[n].fpy], Y)
      ++ SumSet([k \in W |-> g.aw[k].amt], W)
Tokens(o, g, pk) == UNION {{pk[n].x, pk[n].y} : n \in DOMAIN o.pools}
                    \cup UNION {DOMAIN o.bal[u] : u \in DOMAIN o.bal} \cup DOMAIN g.held
Solvent(o, g, pk) ==
  \A t \in Tokens(o, g, pk) :
    LET w == Owed(o, g, pk, t)
    IN  ~IsNaN(w) /\ w \preceq (IF t = Vara THEN o.nb ELSE Old(g.held, t, Zero))

(***************************************************************************)
(* Ghost state                                                             *)
(*  aw, wt, nk  the specification's own hidden state                       *)
(*  held  [token -> what the exchange received and has not paid out]       *)
(*  acc   [user -> <<per position: [gx, gy, sec, s0, t0]>>]: fee growth    *)
(*        paid while the position was in range, and seconds in range       *)
(*  last  the last operation, if it was a quote                            *)
(*  tr    every transfer ever requested                                    *)
(*  track, dead   whether acc, or the whole history, can be followed on    *)
(***************************************************************************)
\* tokens that the answers of the token programs moved
Held(g, st) ==
  IF st.op # "reply" \/ st.out = "skip" \/ st.id \notin DOMAIN g.tr THEN g.held
  ELSE LET m == g.tr[st.id]
           h == Old(g.held, m.tok, Zero)
           \* an answer that says nothing: the worst case for the exchange
           moved == st.kind = "true" \/ (~m.dep /\ st.kind \in {"auto", "garbage", "wrong_svc", "wrong_act"})
       IN  IF ~moved THEN g.held
           ELSE (m.tok :> (IF m.dep THEN h ++ m.amt ELSE h -- m.amt)) @@ g.held

Seg(q, segs, x) ==
  LET s == SelectSeq(segs, LAMBDA z : z.pool = q.pool /\ z.x = x /\ q.lo <= z.tick /\ z.tick < q.up)
      RECURSIVE Add(_, _)
      Add(k, acc) == IF k > Len(s) THEN acc ELSE Add(k + 1, WAdd(acc, s[k].dg, 128))
  IN  Add(1, Zero)

NewAcc(o, q, ts) == [gx |-> Zero, gy |-> Zero, sec |-> Zero,
                     s0 |-> SecondsInside(o.pools[q.pool], o.ticks[q.pool][q.lo], o.ticks[q.pool][q.up], ts)]

\* o, o1: observed states before and after; r: the predicted step
Acc(acc, o, o1, r, st, dt) ==
  LET grown == [u \in DOMAIN acc |-> [k \in DOMAIN acc[u] |->
        LET q == o.pos[u][k]
            t == o.pools[q.pool].tick
            a == acc[u][k]
        IN  [a EXCEPT !.gx = WAdd(@, Seg(q, r.segs, TRUE), 128), !.gy = WAdd(@, Seg(q, r.segs, FALSE), 128),
                      !.sec = IF q.lo <= t /\ t < q.up THEN WAdd(@, dt, 64) ELSE @]]]
  IN IF st.out # "ok" THEN grown
     ELSE CASE st.op = "open" ->
                 Put(grown, st.who, Append(Old(grown, st.who, <<>>), NewAcc(o1, o1.pos[st.who][Len(o1.pos[st.who])], st.ts)))
            [] st.op = "close" -> [grown EXCEPT ![st.who] = SwapRemove(@, st.i + 1)]
            [] st.op = "claim" -> [grown EXCEPT ![st.who][st.i + 1] = [@ EXCEPT !.gx = Zero, !.gy = Zero]]
            [] st.op = "transfer" ->
                 LET a == grown[st.who][st.i + 1]
                     g1 == [grown EXCEPT ![st.who] = SwapRemove(@, st.i + 1)]
                 IN  Put(g1, st.to, Append(Old(g1, st.to, <<>>), a))
            [] OTHER -> grown

AccFits(acc, o) == \A u \in DOMAIN o.pos : Len(Old(acc, u, <<>>)) = Len(o.pos[u])

\* P07/P08: what a position can claim is what was paid while it was in range
FeesOk(acc, o) ==
  \A e \in AllPos(o) : Growth(o, PosAt(o, e)) = <<acc[e[1]][e[2]].gx, acc[e[1]][e[2]].gy>>
\* P28: the time spent inside a position's range
SecondsOk(acc, o, ts) ==
  \A e \in AllPos(o) :
    LET q == PosAt(o, e)
        a == acc[e[1]][e[2]]
    IN  WSub(SecondsInside(o.pools[q.pool], o.ticks[q.pool][q.lo], o.ticks[q.pool][q.up], ts), a.s0, 64) = a.sec

\* what anyone but the caller's own position could claim stays the same
\* unless somebody trades
SameClaims(st, o, o1) ==
  IF st.op \in {"swap", "route", "transfer"} THEN {}
  ELSE LET kept(u) == {k \in DOMAIN o.pos[u] :
                         ~(Has(st, "who") /\ u = st.who /\ st.op \in {"close", "claim"})}
       IN  IF \A u \in DOMAIN o.pos : \A k \in kept(u) :
                k \in DOMAIN o1.pos[u] /\ PosOk(o1, o1.pos[u][k]) /\ Fees(o, o.pos[u][k]) = Fees(o1, o1.pos[u][k])
           THEN {} ELSE {"inv.claims"}

\* times never go backwards
TimesOk(o, o1) == \A n \in DOMAIN o.pools \cap DOMAIN o1.pools :
  o.pools[n].st = o1.pools[n].st /\ o.pools[n].lt \preceq o1.pools[n].lt

=============================================================================
