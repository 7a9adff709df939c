---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* Every behaviour of the exchange in small scenarios: after a fixed       *)
(* prefix, all sequences of the scenario's operations up to Depth are      *)
(* explored.  The properties are invariants of the states reached.  With   *)
(* Out # "" every transition is also written down, as a tree of            *)
(* operations, which is then performed on the compiled contract and its    *)
(* answers are compared with the specification by module Trace.            *)
(***************************************************************************)
EXTENDS Props, Scenarios, Curve, TraceIO

CONSTANTS Scen, Depth, Out

VARIABLES S, g, step, node, bad
vars == <<S, g, step, node, bad>>

Sc == Scenario(Scen)
Setup == Sc.setup

S1 == S0(Sc.pf, Sc.pk, Sc.users)
Init == /\ S = S1
        /\ g = [held |-> <<>>, tr |-> <<>>, acc |-> [u \in Sc.users |-> <<>>],
                ts |-> Sc.ts, blk |-> 10, nm |-> 0, open |-> {}, did |-> [op |-> "none", who |-> "none", out |-> "ok"]]
        /\ step = 0 /\ bad = {}
        /\ node = IF Out = "" THEN 0 ELSE Emit(Out, -1, [tag |-> Scen, users |-> Sc.users, pf |-> Sc.pf, ts |-> Sc.ts])

Asks(o) == o.op \notin {"reply", "tick"}
\* the operation as performed: with the time and the message's number
Dated(o, h) ==
  LET ts == IF o.op = "tick" THEN h.ts ++ o.ms ELSE h.ts
      blk == IF o.op = "tick" THEN h.blk + o.blocks ELSE h.blk
      d == [ts |-> ts, blk |-> blk]
  IN  IF Asks(o) THEN (d @@ [id |-> "m" \o ToString(h.nm)]) @@ o ELSE d @@ o

\* (\E x \in {e} has TLC evaluate e once)
Perform(o) ==
  \E d \in {Dated(o, g)} :
  \E r \in {Step(S, d)} :
  LET st == d @@ [out |-> r.out]
      asked == {r.msgs[j].id : j \in DOMAIN r.msgs}
      g1 == [held |-> Held(g, st), ts |-> d.ts, blk |-> d.blk,
             tr |-> [k \in asked |-> r.S.aw[k]] @@ g.tr,
             acc |-> Acc(g.acc, S, r.S, r, st, d.ts -- g.ts),
             nm |-> IF Asks(o) THEN g.nm + 1 ELSE g.nm,
             open |-> (g.open \cup asked) \ (IF o.op = "reply" THEN {o.id} ELSE {}),
             did |-> [op |-> o.op, who |-> IF Has(o, "who") THEN o.who ELSE "none", out |-> r.out]]
  IN  /\ S' = r.S /\ g' = g1
      /\ node' = IF Out = "" THEN 0 ELSE Emit(Out, node, o)
      /\ bad' = {x \in {"claims"} : SameClaims(st, S, r.S) # {}}
           \cup {x \in {"times"} : ~TimesOk(S, r.S)}
           \cup {x \in {"setup"} : step < Len(Setup) /\ r.out \notin {"ok", "wait"}}
           \cup {x \in {"trace"} : r.out = "fail" /\ r.S # S}

Answers(h) ==
  UNION {{[op |-> "reply", id |-> k, kind |-> kind] : kind \in Sc.kinds} : k \in h.open}

\* swaps that (almost) reach the next stop
Verge(n, xy, byIn) ==
  LET p == S.pools[n]
      K == S.pk[n]
      stop == NextStop(DOMAIN Ticks(S, n), p.tick, K.sp, xy, EndLimit(xy))
      full == IF xy = byIn THEN DeltaX(stop.price, p.sp, p.liq, byIn) ELSE DeltaY(stop.price, p.sp, p.liq, byIn)
      a == IF byIn THEN BCeil(full ** E12, E12 -- K.fee) ELSE full
      \* (in between, DeltaX rounds up more than it has to)
      e == N("1") ++ (a ** E24) // (N("2") ** (p.sp ** p.sp))
  IN  IF stop.k = "end" \/ IsNaN(a) THEN {}
      ELSE {b \in {a, a ++ One, a -- One, a -- e} : ~IsNaN(b)}
AtEdge ==
  UNION {{[op |-> "swap", who |-> "u2", pool |-> n, xy |-> xy, amt |-> a, in |-> byIn, lim |-> EndLimit(xy)] : a \in Verge(n, xy, byIn)}
         : n \in Sc.edge, xy \in BOOLEAN, byIn \in BOOLEAN}

Next == /\ bad = {}
        /\ step' = step + 1
        /\ IF step < Len(Setup) THEN Perform(Setup[step + 1])
           ELSE /\ step < Len(Setup) + Depth
                /\ \/ \E o \in Sc.ops : /\ (o.op \in {"dep1", "dep2", "wd1", "wd2"} => Cardinality(g.open) < Sc.most)
                                        /\ (o.op = "tick" => g.ts \prec Sc.until)
                                        /\ Perform(o)
                   \/ \E o \in Answers(g) : Perform(o)
                   \/ \E o \in AtEdge : Perform(o)
Spec == Init /\ [][Next]_vars

\* numbers of messages and transfers only matter by their order
Rank(k, ids) == IF k \in ids THEN Cardinality({x \in ids : Earlier(x, k)}) ELSE -1
View == LET ks == DOMAIN S.aw \cup g.open
            ms == DOMAIN S.wt
        IN  <<[S EXCEPT !.aw = {<<Rank(k, ks), [S.aw[k] EXCEPT !.mid = Rank(@, ms)]>> : k \in DOMAIN S.aw},
                        !.wt = {<<Rank(m, ms), [S.wt[m] EXCEPT !.kids = [j \in DOMAIN @ |-> Rank(@[j], ks)],
                                                               !.ans = {<<Rank(k, ks), S.wt[m].ans[k]>> : k \in DOMAIN @}]>> : m \in ms},
                        !.nk = 0],
              {Rank(k, ks) : k \in g.open}, g.held, g.acc, g.ts, step, bad>>

(***************************************************************************)
(* The properties                                                          *)
(***************************************************************************)
Inert == bad = {}
Names == DOMAIN S.pools
Liquidity == \A n \in Names : LiqOk(S, n) /\ TickSums(S, n)
PriceTick == \A n \in Names : Coherent(S.pools[n], S.pk[n].sp)
Books(T) == [held |-> g.held, aw |-> T.aw, wt |-> T.wt]
Solvency == Solvent(S, Books(S), S.pk)
FeesPaid == FeesOk(g.acc, S)
TimeInside == SecondsOk(g.acc, S, g.ts)
NothingDangles == ~Dangling(S)
\* nobody waits longer than the agreed time
Waits == \A m \in DOMAIN S.wt : S.wt[m].dl > g.blk \/ S.wt[m].dl = g.blk
\* an answered message leaves nothing behind, and every transfer in flight can still be settled
Flight == \A k \in g.open : k \in DOMAIN S.aw \/ k \in DOMAIN g.tr

\* P01: everybody can leave: all positions close, all protocol fees are
\* collected, all balances are paid out
RECURSIVE CloseAll(_, _)
CloseAll(T, us) ==
  IF us = {} THEN [ok |-> TRUE, S |-> T]
  ELSE LET u == CHOOSE x \in us : TRUE
       IN  IF Pos(T, u) = <<>> THEN CloseAll(T, us \ {u})
           ELSE LET r == Close(T, [who |-> u, i |-> 0, ts |-> g.ts])
                IN  IF r.out # "ok" THEN [ok |-> FALSE, S |-> T] ELSE CloseAll(r.S, us)
RECURSIVE CollectAll(_, _)
CollectAll(T, ns) ==
  IF ns = {} THEN [ok |-> TRUE, S |-> T]
  ELSE LET n == CHOOSE x \in ns : TRUE
           r == WithdrawProtocolFee(T, [who |-> T.pools[n].rcv, pool |-> n])
       IN  IF r.out # "ok" THEN [ok |-> FALSE, S |-> T] ELSE CollectAll(r.S, ns \ {n})
FullExit ==
  LET c == CloseAll(S, DOMAIN S.pos)
      f == IF c.ok THEN CollectAll(c.S, Names) ELSE c
  IN  step < Len(Setup) \/ (f.ok /\ Solvent(f.S, Books(f.S), S.pk) /\ \A n \in Names : IsZero(f.S.pools[n].liq) /\ Ticks(f.S, n) = <<>>)

\* P03: a swap there and back never earns anything
Back(n, xy, a) ==
  LET r1 == RunSwap(S, n, xy, a, TRUE, EndLimit(xy), g.ts)
  IN  IF ~SwapOk(r1) THEN TRUE
      ELSE LET S2 == [S EXCEPT !.pools[n] = r1.p, !.ticks = Put(@, n, ApplyCrossed(Ticks(S, n), r1.crossed))]
               r2 == RunSwap(S2, n, ~xy, r1.out, TRUE, EndLimit(~xy), g.ts)
           IN  ~SwapOk(r2) \/ r2.out \preceq r1.in
NoRoundTripGain == \A n \in Names : \A xy \in BOOLEAN : \A a \in Sc.trips : Back(n, xy, a)
\* nor does splitting a swap in two (the whole swap pays for each tick it
\* crosses with denominators rounded down, so it may lose that much; and it
\* rounds wherever a search for the next tick ends)
Split(n, xy, a) ==
  LET r1 == RunSwap(S, n, xy, a, TRUE, EndLimit(xy), g.ts)
      r0 == RunSwap(S, n, xy, a ++ a, TRUE, EndLimit(xy), g.ts)
      p == IF S.pools[n].sp \prec r0.p.sp THEN S.pools[n].sp ELSE r0.p.sp
      e == N("1") ++ (a ** E24) // (p ** p)
      r == IF SwapOk(r0) THEN RunSwap(S, n, xy, a ++ a ++ e, TRUE, EndLimit(xy), g.ts) ELSE r0
      ends == Abs(r.p.tick - S.pools[n].tick) \div (SEARCH * S.pk[n].sp)
  IN  IF ~SwapOk(r1) \/ ~SwapOk(r) THEN TRUE
      ELSE LET S2 == [S EXCEPT !.pools[n] = r1.p, !.ticks = Put(@, n, ApplyCrossed(Ticks(S, n), r1.crossed))]
               r2 == RunSwap(S2, n, xy, a, TRUE, EndLimit(xy), g.ts)
           IN  ~SwapOk(r2) \/ r1.out ++ r2.out \preceq r.out ++ N(ToString(ends))
NoSplitGain == \A n \in Names : \A xy \in BOOLEAN : \A a \in Sc.trips : Split(n, xy, a)

\* P03, P07, P09, P22: every leg of a swap keeps to the curve (module Curve),
\* its fee is shared out, and the legs add up
FairLeg(l, fee, pf, byIn) ==
  /\ FairStep(l.from, l.target, l.liq, l.amt, byIn, fee, l.to, l.in, l.out, l.fee)
  /\ IF IsZero(l.fee) \/ IsZero(l.liq) THEN IsZero(l.dg) /\ IsZero(l.prot) ELSE FairShare(l.fee, l.prot, l.dg, l.liq, pf)
FairSwap(n, xy, a, byIn) ==
  LET s == RunSwap(S, n, xy, a, byIn, EndLimit(xy), g.ts)
      dust == {k \in DOMAIN s.legs : s.legs[k].from = s.legs[k].to /\ ~IsZero(s.dust) /\ k = Len(s.legs)}
      legs == DOMAIN s.legs \ dust
      sum(f) == SumSet(f, DOMAIN s.legs)
  IN  /\ s.why # "arithmetic"     \* the amounts are all representable
      /\ \A k \in legs : FairLeg(s.legs[k], S.pk[n].fee, S.pf, byIn)
      /\ \A k \in dust : FairShare(s.legs[k].fee, s.legs[k].prot, s.legs[k].dg, s.legs[k].liq, S.pf)
      /\ \A k \in DOMAIN s.legs : IF k = 1 THEN s.legs[k].from = S.pools[n].sp ELSE s.legs[k].from = s.legs[k - 1].to
      /\ SwapOk(s) => /\ s.in = sum([k \in DOMAIN s.legs |-> s.legs[k].in ++ s.legs[k].fee])
                      /\ s.out = sum([k \in DOMAIN s.legs |-> s.legs[k].out])
                      /\ s.p.sp = s.legs[Len(s.legs)].to
                      /\ IF byIn THEN s.in = a ELSE s.out = a
Fair == \A n \in Names : \A xy \in BOOLEAN : \A byIn \in BOOLEAN : \A a \in Sc.trips : FairSwap(n, xy, a, byIn)

\* P10: a position opened and closed at once never returns more than it cost
InAndOut(o) ==
  LET d == [ts |-> g.ts, blk |-> g.blk] @@ o
      r == Open(S, d)
      c == Close(r.S, [who |-> o.who, i |-> Len(r.S.pos[o.who]) - 1, ts |-> g.ts])
      K == S.pk[o.pool]
  IN  IF r.out # "ok" THEN TRUE
      ELSE /\ c.out = "ok"
           /\ \A t \in {K.x, K.y} : Bal(c.S, o.who, t) \preceq Bal(S, o.who, t)
           /\ \A n \in Names : c.S.pools[n].liq = S.pools[n].liq /\ c.S.pools[n].sp = S.pools[n].sp
           /\ c.S.ticks = S.ticks
NoOpenGain == step < Len(Setup) \/ \A o \in {x \in Sc.ops : x.op = "open"} : InAndOut(o)

(***************************************************************************)
(* Properties of steps.  First: the exchange refines the plain books of    *)
(* module Ledger and the lists of module Owners.                           *)
(***************************************************************************)
Books_ == INSTANCE Ledger WITH
  bal <- S.bal, held <- g.held,
  pend <- [k \in g.open |-> [who |-> g.tr[k].who, tok |-> g.tr[k].tok, amt |-> g.tr[k].amt, dep |-> g.tr[k].dep]]
Ledgers == Books_!Spec

Owned == INSTANCE Owners WITH
  own <- [u \in DOMAIN S.pos |-> [k \in DOMAIN S.pos[u] |->
            [pool |-> S.pos[u][k].pool, lo |-> S.pos[u][k].lo, up |-> S.pos[u][k].up, liq |-> S.pos[u][k].liq, blk |-> S.pos[u][k].blk]]],
  by <- g.did.who
Ownership == Owned!Spec

\* who may do what (P02, P09, P18, P19)
Did == g'.did
Rules ==
  [][/\ (S'.pf # S.pf => Did.op = "set_pf" /\ Did.who = Admin)
     /\ (S'.tiers # S.tiers => Did.op \in {"add_tier", "rm_tier"} /\ Did.who = Admin)
     /\ (S'.keys # S.keys => /\ Did.op = "create_pool"
                             /\ SubSeq(S'.keys, 1, Len(S.keys)) = S.keys
                             /\ Cardinality(SetOf(S'.keys)) = Len(S'.keys)
                             /\ SetOf(S'.keys) = DOMAIN S'.pools)
     /\ Names \subseteq DOMAIN S'.pools
     /\ \A n \in Names :
          LET p == S.pools[n]
              q == S'.pools[n]
          IN  /\ q.st = p.st
              /\ (q.rcv # p.rcv => Did.op = "set_rcv" /\ Did.who = Admin)
              /\ (q.sp # p.sp \/ q.tick # p.tick => Did.op \in {"swap", "route"})
              /\ (<<q.fgx, q.fgy>> # <<p.fgx, p.fgy>> => Did.op \in {"swap", "route"})
              /\ (q.liq # p.liq => Did.op \in {"swap", "route", "open", "close"})
              /\ (q.fpx \prec p.fpx \/ q.fpy \prec p.fpy => Did.op = "wpf" /\ Did.who = p.rcv /\ IsZero(q.fpx) /\ IsZero(q.fpy))
              /\ (q.fpx \succ p.fpx \/ q.fpy \succ p.fpy => Did.op \in {"swap", "route"})
     /\ (S'.nb \prec S.nb => Did.op = "wd_vara")
     \* a user's balances change only by what the user asked for
     /\ \A u \in DOMAIN S.bal : S'.bal[u] # S.bal[u] => Did.who = u \/ Did.op \in {"reply", "tick"}
  ]_<<S, g>>

\* nothing is made out of nothing: what the exchange owes does not grow but
\* by a deposit's confirmation or by the roundings that a trade may release
\* (one for each position's principal and one for its fees, and what DeltaX
\* loses by its rounded denominators)
Lowest == LET q == {PosAt(S, e).lo : e \in AllPos(S)} IN SqrtPriceAt(IF q = {} THEN 0 ELSE MinOf(q))
Value ==
  [][\A t \in Tokens(S', Books(S'), S.pk) :
       LET a == Owed(S, Books(S), S.pk, t)
           b == Owed(S', [held |-> g'.held, aw |-> S'.aw, wt |-> S'.wt], S.pk, t)
           c == N(ToString(2 * Cardinality(AllPos(S)))) ++ (N("2") ** (a ** E24)) // (Lowest ** Lowest)
       IN  CASE Did.op \in {"swap", "route"} -> b \preceq a ++ c
             [] Did.op = "dep_vara" /\ t = Vara -> b \preceq a ++ (S'.nb -- S.nb)
             [] Did.op = "reply" -> b \preceq a ++ (Old(g'.held, t, Zero) -- Old(g.held, t, Zero)) \/ b \preceq a
             [] OTHER -> b \preceq a
  ]_<<S, g>>
=============================================================================
