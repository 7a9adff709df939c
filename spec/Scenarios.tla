------------------------------ MODULE Scenarios ------------------------------
(***************************************************************************)
(* Small scenarios for module MC: users, pools, a prefix of operations     *)
(* that sets the scene, and the operations explored after it.              *)
(***************************************************************************)
EXTENDS Dex

\* ids are a letter and a number
Earlier(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ a # b /\ ToI(N(SubSeq(a, 2, Len(a)))) < ToI(N(SubSeq(b, 2, Len(b)))))

Fee6 == N("6000000000")
P == "t1/t2/6000000000/10"
PK == (P :> [x |-> "t1", y |-> "t2", fee |-> Fee6, sp |-> 10])
TS0 == N("1700000000000")
M256 == (N("2") ** Pow2(255)) -- One

Dep(u, t, a) == [op |-> "dep1", who |-> u, tok |-> t, amt |-> N(a)]
Yes(k) == [op |-> "reply", id |-> k, kind |-> "true"]
Fund(u, t, a, k) == <<Dep(u, t, a), Yes(k)>>
AddT(fee, sp) == [op |-> "add_tier", who |-> Admin, fee |-> fee, sp |-> sp]
MkPool(a, b, fee, sp, tick) ==
  [op |-> "create_pool", who |-> "u1", t0 |-> a, t1 |-> b, fee |-> fee, sp |-> sp, sqrt |-> SqrtPriceAt(tick), tick |-> tick]
OpenP(u, n, lo, up, liq) == [op |-> "open", who |-> u, pool |-> n, lo |-> lo, up |-> up, liq |-> N(liq), slo |-> MIN_SQRT_PRICE, sup |-> MAX_SQRT_PRICE]
SwapIn(u, n, xy, a) == [op |-> "swap", who |-> u, pool |-> n, xy |-> xy, amt |-> N(a), in |-> TRUE, lim |-> IF xy THEN MIN_SQRT_PRICE ELSE MAX_SQRT_PRICE]
SwapOut(u, n, xy, a) == [SwapIn(u, n, xy, a) EXCEPT !.in = FALSE]
SwapTo(u, n, xy, a, lim) == [SwapIn(u, n, xy, a) EXCEPT !.lim = lim]
TickBy(b, ms) == [op |-> "tick", blocks |-> b, ms |-> N(ms)]
At(op, u, i) == [op |-> op, who |-> u, i |-> i]
Give(u, v, i) == [op |-> "transfer", who |-> u, to |-> v, i |-> i]

Base == [pf |-> N("10000000000"), pk |-> PK, users |-> {"u0", "u1", "u2"}, ts |-> TS0, setup |-> <<>>, ops |-> {},
         kinds |-> {"true"}, most |-> 0, edge |-> {}, until |-> TS0 ++ N("4000"), trips |-> {N("1"), N("1000"), N("30000")}]

(* Deposits and withdrawals whose answers come in any order, or never *)
D2(u, a, b) == [op |-> "dep2", who |-> u, tx |-> "t1", ax |-> N(a), ty |-> "t2", ay |-> N(b)]
W1(u, a) == [op |-> "wd1", who |-> u, tok |-> "t1", amt |-> a]
W2(u, a, b) == [op |-> "wd2", who |-> u, tx |-> "t1", ax |-> a, ty |-> "t2", ay |-> b]
Gassed(o, gas) == [gas |-> N(gas)] @@ o
Async == [Base EXCEPT
  !.pk = <<>>, !.kinds = {"true", "false", "panic", "garbage"}, !.most = 2, !.until = TS0 ++ N("700000"),
  !.setup = Fund("u1", "t1", "10", "k0") \o Fund("u1", "t2", "7", "k1"),
  !.ops = {Dep("u1", "t1", "3"), D2("u1", "2", "5"), D2("u2", "0", "4"),
           W1("u1", "null"), W1("u1", N("4")), W1("u1", N("0")), W2("u1", "null", "null"), W2("u1", N("1"), N("7")), W2("u1", N("10"), N("8")),
           Gassed(D2("u1", "2", "5"), "60000000000"), Gassed(W2("u1", N("4"), N("1")), "60000000000"), Gassed(W1("u1", N("4")), "42400200000"),
           [val |-> N("5")] @@ Dep("u2", "t1", "1"),
           [op |-> "dep_vara", who |-> "u1", amt |-> N("6")], [op |-> "wd_vara", who |-> "u1", amt |-> "null"],
           [op |-> "wd_vara", who |-> "u1", amt |-> N("4")],
           TickBy(60, "180000")}]
\* the same with balances near the largest number there is
Full == [Async EXCEPT
  !.setup = <<[op |-> "dep1", who |-> "u1", tok |-> "t1", amt |-> M256 -- N("5")], Yes("k0")>> \o Fund("u1", "t2", "7", "k1"),
  !.ops = {Dep("u1", "t1", "3"), Dep("u1", "t1", "6"), D2("u1", "5", "5"), D2("u1", "6", "5"),
           [D2("u1", "1", "1") EXCEPT !.ay = M256 -- N("7")], [D2("u1", "1", "1") EXCEPT !.ay = M256 -- N("6")],
           W1("u1", "null"), W1("u1", N("4")), W2("u1", N("2"), "null"), Dep("u2", "t1", "1"),
           TickBy(101, "303000")}]

(* One pool, two traders and liquidity providers *)
Money == Fund("u1", "t1", "100000000", "k0") \o Fund("u1", "t2", "100000000", "k1")
         \o Fund("u2", "t1", "100000000", "k2") \o Fund("u2", "t2", "100000000", "k3")
Pool1 == <<AddT(Fee6, 10), MkPool("t1", "t2", Fee6, 10, 0)>> \o Money
Amm == [Base EXCEPT
  !.setup = Pool1 \o <<OpenP("u1", P, -1000, 1000, "1000000000000"), OpenP("u2", P, -20, 20, "1000000000000")>>,
  !.ops = {SwapIn("u2", P, TRUE, "1000"), SwapIn("u2", P, FALSE, "30000"), SwapIn("u2", P, TRUE, "20131"), SwapIn("u2", P, TRUE, "45000"),
           SwapOut("u2", P, FALSE, "5000"), SwapTo("u2", P, TRUE, "90000", SqrtPriceAt(-20)), SwapTo("u2", P, FALSE, "90000", SqrtPriceAt(20)),
           OpenP("u1", P, -20, 0, "700000000000"), OpenP("u2", P, 0, 20, "300000000000"),
           At("close", "u1", 0), At("close", "u2", 0), At("claim", "u1", 0), At("claim", "u2", 0),
           Give("u1", "u2", 0), [op |-> "wpf", who |-> Admin, pool |-> P], TickBy(1, "3000")}]

(* The upper and the lower end of the supported prices *)
PE == "t1/t2/6000000000/100"
EndsAt(t, w) == [Base EXCEPT
  !.pk = (PE :> [x |-> "t1", y |-> "t2", fee |-> Fee6, sp |-> 100]),
  !.trips = {N("1"), N("1000000")},
  !.setup = <<AddT(Fee6, 100), MkPool("t2", "t1", Fee6, 100, t)>>
            \o Fund("u1", "t1", "1000000000000000", "k0") \o Fund("u1", "t2", "1000000000000000", "k1")
            \o Fund("u2", "t1", "1000000000000000", "k2") \o Fund("u2", "t2", "1000000000000000", "k3")
            \o <<OpenP("u1", PE, -221800, 221800, "1000000000"), OpenP("u1", PE, t - w, t + w, "1000000000")>>,
  !.ops = {SwapIn("u2", PE, TRUE, "100000000"), SwapIn("u2", PE, FALSE, "100000000"),
           SwapIn("u2", PE, TRUE, "100000000000000"), SwapIn("u2", PE, FALSE, "100000000000000"),
           SwapOut("u2", PE, TRUE, "5"), SwapOut("u2", PE, FALSE, "5"), SwapOut("u2", PE, TRUE, "1000000"), SwapOut("u2", PE, FALSE, "1000000"),
           SwapTo("u2", PE, TRUE, "100000000000000", SqrtPriceAt(t - 100)), SwapTo("u2", PE, FALSE, "100000000000000", SqrtPriceAt(t)),
           OpenP("u2", PE, 221700, 221800, "1000"), OpenP("u2", PE, -221800, -221700, "1000"), OpenP("u2", PE, 221800, 221900, "1000"),
           At("close", "u1", 1), At("close", "u1", 0), At("claim", "u1", 0)}]

(* Lists of positions *)
Q(op, u, i) == [op |-> op, who |-> u, own |-> u, i |-> i]
Lists == [Base EXCEPT
  !.setup = Pool1 \o <<OpenP("u1", P, -10, 10, "100000000000"), OpenP("u1", P, -20, 20, "200000000000"), OpenP("u1", P, -30, 30, "300000000000"),
                       SwapIn("u2", P, TRUE, "1000")>>,
  !.ops = {OpenP("u1", P, -10, 20, "400000000000"), OpenP("u2", P, -30, 10, "500000000000")}
          \cup {At("close", "u1", k) : k \in 0..3} \cup {At("claim", "u1", k) : k \in {0, 2}} \cup {At("close", "u2", 0)}
          \cup {Give("u1", "u2", k) : k \in 0..3} \cup {Give("u2", "u1", k) : k \in 0..1} \cup {Give("u1", "u1", 1), SwapIn("u2", P, FALSE, "3000")}]

(* Who may do what *)
TwoTiers == (P :> PK[P]) @@ ("t1/t2/6000000000/1" :> [x |-> "t1", y |-> "t2", fee |-> Fee6, sp |-> 1])
Config == [Base EXCEPT
  !.pk = TwoTiers,
  !.setup = Pool1 \o <<OpenP("u1", P, -1000, 1000, "1000000000000"), SwapIn("u2", P, TRUE, "30000")>>,
  !.ops = UNION {{[op |-> "set_pf", who |-> u, v |-> N("250000000000")],
                  [op |-> "add_tier", who |-> u, fee |-> Fee6, sp |-> 1], [op |-> "rm_tier", who |-> u, fee |-> Fee6, sp |-> 10],
                  [op |-> "add_tier", who |-> u, fee |-> Fee6, sp |-> 10],
                  [op |-> "set_rcv", who |-> u, pool |-> P, rcv |-> "u2"], [op |-> "wpf", who |-> u, pool |-> P]} : u \in {"u0", "u1", "u2"}}
          \cup {MkPool("t1", "t2", Fee6, 10, 0), MkPool("t2", "t1", Fee6, 1, 3), MkPool("t1", "t1", Fee6, 1, 3),
                SwapIn("u2", P, FALSE, "20000"), OpenP("u2", P, -10, 10, "1000"), At("close", "u1", 0)}]

(* Routes over three pools *)
R1 == "t1/t2/6000000000/10"
R2 == "t2/t3/6000000000/10"
R3 == "t1/t3/6000000000/10"
Hop(n, xy) == [pool |-> n, xy |-> xy]
RouteOp(op, a, e, slip, hops) == [op |-> op, who |-> "u2", amt |-> N(a), exp |-> N(e), slip |-> N(slip), hops |-> hops]
AB == <<Hop(R1, TRUE), Hop(R2, TRUE)>>
Ring == <<Hop(R1, TRUE), Hop(R2, TRUE), Hop(R3, FALSE)>>
Twice == <<Hop(R1, TRUE), Hop(R1, FALSE), Hop(R1, TRUE)>>
Broken == <<Hop(R1, TRUE), Hop(R3, TRUE)>>
Routes == [Base EXCEPT
  !.pk = (R1 :> [x |-> "t1", y |-> "t2", fee |-> Fee6, sp |-> 10]) @@ (R2 :> [x |-> "t2", y |-> "t3", fee |-> Fee6, sp |-> 10])
         @@ (R3 :> [x |-> "t1", y |-> "t3", fee |-> Fee6, sp |-> 10]),
  !.setup = <<AddT(Fee6, 10), MkPool("t1", "t2", Fee6, 10, 0), MkPool("t3", "t2", Fee6, 10, 20), MkPool("t1", "t3", Fee6, 10, -30)>> \o Money
            \o Fund("u1", "t3", "100000000", "k4") \o Fund("u2", "t3", "5000", "k5")
            \o <<OpenP("u1", R1, -1000, 1000, "1000000000000"), OpenP("u1", R2, -500, 500, "700000000000"), OpenP("u1", R3, -100, 100, "1000000000000"),
                 OpenP("u1", R1, -20, -10, "2000000000000")>>,
  !.ops = {RouteOp("route", "10000", "9900", "0", AB), RouteOp("route", "10000", "9850", "0", AB), RouteOp("route", "10000", "10000", "20000000000", AB),
           RouteOp("route", "50000", "0", "0", Ring), RouteOp("route", "20000", "0", "0", Twice), RouteOp("route", "4000", "0", "0", Broken),
           RouteOp("route", "9000000", "0", "0", Ring), RouteOp("route", "1", "0", "0", AB), RouteOp("route", "10000", "0", "0", <<>>),
           SwapIn("u2", R2, FALSE, "4000"), SwapIn("u2", R1, TRUE, "40000"), At("close", "u1", 1), At("claim", "u1", 0),
           [op |-> "wpf", who |-> Admin, pool |-> R1]}]

(* Quotes beside the swaps and routes they foretell *)
QuoteOf(o) == [x \in DOMAIN o \ {"who"} |-> IF x = "op" THEN "quote" ELSE o[x]]
Asked == {SwapIn("u2", R1, TRUE, "40000"), SwapIn("u2", R1, TRUE, "9000000"), SwapOut("u2", R1, FALSE, "777"), SwapIn("u2", R2, FALSE, "4000"),
          SwapIn("u2", R2, FALSE, "9000"), SwapTo("u2", R1, TRUE, "500000", SqrtPriceAt(-15)), SwapTo("u2", R1, FALSE, "5000", SqrtPriceAt(-15)),
          SwapIn("u2", R3, TRUE, "1"), SwapIn("u2", R3, TRUE, "0"), SwapOut("u2", R3, TRUE, "90000000")}
Quotes == [Routes EXCEPT
  !.trips = {},
  !.ops = {[x \in DOMAIN o \cup {"who"} |-> IF x = "who" THEN "u2" ELSE QuoteOf(o)[x]] : o \in Asked}
          \cup {RouteOp("quote_route", "10000", "0", "0", AB), RouteOp("quote_route", "50000", "0", "0", Ring), RouteOp("quote_route", "1", "0", "0", AB),
                RouteOp("quote_route", "9000000", "0", "0", AB), RouteOp("quote_route", "4000", "0", "0", Broken)}
          \cup {SwapIn("u2", R1, TRUE, "40000"), SwapTo("u2", R1, TRUE, "500000", SqrtPriceAt(-15)), SwapIn("u2", R2, FALSE, "4000"),
                At("close", "u1", 1), OpenP("u1", R1, -40, 0, "300000000000"), RouteOp("route", "10000", "9850", "0", AB)}]

(* Every query in every state *)
Ask1(op, more) == more @@ [op |-> op, who |-> "u2"]
Queried == [Lists EXCEPT
  !.trips = {},
  !.ops = {Ask1("get_pf", <<>>), Ask1("get_tiers", <<>>), Ask1("get_pool", [t0 |-> "t2", t1 |-> "t1", fee |-> Fee6, sp |-> 10]), Ask1("get_pool", [t0 |-> "t2", t1 |-> "t1", fee |-> Fee6, sp |-> 1]), Ask1("tier_exists", [fee |-> Fee6, sp |-> 10]), Ask1("get_bal", [own |-> "u1", tok |-> "t1"]), Ask1("get_tickmap", [pool |-> P]),
           Ask1("tick_count", [pool |-> P])}
          \cup {Ask1("get_keys", [off |-> a, size |-> 2]) : a \in {0, 1}}
          \cup {Ask1("get_all_pos", [own |-> u]) : u \in {"u1", "u2"}} \cup {Ask1("pos_count", [own |-> u]) : u \in {"u0", "u1"}}
          \cup UNION {{Ask1("get_pos", [own |-> "u1", i |-> k]), Ask1("get_posa", [own |-> "u1", i |-> k])} : k \in {0, 2, 3}}
          \cup {Ask1("get_positions", [own |-> "u1", off |-> a, size |-> z]) : a \in {0, 1, 3}, z \in {1, 2, 10}}
          \cup {Ask1("pos_ticks", [own |-> "u1", off |-> a]) : a \in {0, 2}}
          \cup UNION {{Ask1("get_tick", [pool |-> P, i |-> t]), Ask1("tick_init", [pool |-> P, i |-> t])} : t \in {-20, 10, 40, 5}}
          \cup {Ask1("liq_ticks", [pool |-> P, ticks |-> l]) : l \in {<<-20, 10>>, <<>>, <<40>>}}
          \cup {Ask1("pools_pair", [t0 |-> a, t1 |-> b]) : a \in {"t2", "t1"}, b \in {"t1", "t3"}}
          \cup {OpenP("u1", P, -10, 20, "400000000000"), At("close", "u1", 0), At("close", "u1", 2), Give("u1", "u2", 1), SwapIn("u2", P, FALSE, "3000"),
                Give("u2", "u1", 0)}]

(* Fee growth counters that run over *)
PW == "t1/t2/999999999999/10"
FeeW == N("999999999999")
Wrap == [Base EXCEPT
  !.pk = (PW :> [x |-> "t1", y |-> "t2", fee |-> FeeW, sp |-> 10]), !.trips = {},
  !.setup = <<AddT(FeeW, 10), MkPool("t1", "t2", FeeW, 10, 0)>>
            \o Fund("u1", "t1", "1000000000000000000000", "k0") \o Fund("u1", "t2", "1000000000000000000000", "k1")
            \o Fund("u2", "t1", "1000000000000000000000", "k2") \o Fund("u2", "t2", "1000000000000000000000", "k3")
            \o <<OpenP("u1", PW, -10000, 10000, "1000000000000"), SwapIn("u2", PW, TRUE, "200000000000000000")>>,
  !.ops = {SwapIn("u2", PW, TRUE, "150000000000000000"), SwapIn("u2", PW, FALSE, "150000000000000000"), SwapIn("u2", PW, FALSE, "290000000000000000"),
           OpenP("u1", PW, -200, 200, "400000000000"), OpenP("u2", PW, -400, -300, "100000000000"), OpenP("u2", PW, -10000, -200, "100000000000"),
           At("close", "u1", 0), At("close", "u1", 1), At("close", "u2", 0), At("claim", "u1", 0), At("claim", "u2", 0), TickBy(1, "3000")}]

(* A few units of everything: rounding decides *)
Dust == [Base EXCEPT
  !.setup = <<AddT(Fee6, 10), MkPool("t1", "t2", Fee6, 10, 4050)>> \o Fund("u1", "t1", "1000", "k0") \o Fund("u1", "t2", "1000", "k1")
            \o Fund("u2", "t1", "300", "k2") \o Fund("u2", "t2", "300", "k3")
            \o <<OpenP("u1", P, 3000, 5000, "90000000"), OpenP("u1", P, 4040, 4050, "70000000"), OpenP("u2", P, 4050, 4070, "50000001")>>,
  !.pf = N("250000000000"), !.trips = {N("1"), N("2"), N("3"), N("5"), N("50")},
  !.ops = {SwapIn("u2", P, xy, a) : xy \in BOOLEAN, a \in {"1", "2", "5", "40"}} \cup {SwapOut("u2", P, xy, a) : xy \in BOOLEAN, a \in {"1", "3"}}
          \cup {SwapTo("u2", P, TRUE, "90", SqrtPriceAt(4045)), SwapTo("u2", P, FALSE, "90", SqrtPriceAt(4063)),
                OpenP("u2", P, 4040, 4070, "1"), OpenP("u2", P, 4050, 4060, "30000000"), At("close", "u1", 1), At("close", "u2", 0), At("claim", "u1", 0),
                [op |-> "wpf", who |-> Admin, pool |-> P]}]

(* Ticks far apart, at the borders of the bitmap's chunks and of a search *)
P1 == "t1/t2/6000000000/1"
Far == [Base EXCEPT
  !.pk = (P1 :> [x |-> "t1", y |-> "t2", fee |-> Fee6, sp |-> 1]), !.trips = {N("100000")},
  !.setup = <<AddT(Fee6, 1), MkPool("t1", "t2", Fee6, 1, -2)>> \o Money
            \o <<OpenP("u1", P1, -1300, 1300, "1000000000000"), OpenP("u1", P1, -258, 254, "500000000000"), OpenP("u1", P1, -26, 37, "500000000000")>>,
  !.ops = {SwapIn("u2", P1, TRUE, "30000"), SwapIn("u2", P1, TRUE, "130000"), SwapIn("u2", P1, TRUE, "400000"), SwapIn("u2", P1, FALSE, "30000"),
           SwapIn("u2", P1, FALSE, "130000"), SwapIn("u2", P1, FALSE, "300000"),
           SwapTo("u2", P1, TRUE, "9000000", SqrtPriceAt(-258)), SwapTo("u2", P1, FALSE, "9000000", SqrtPriceAt(254)),
           SwapTo("u2", P1, TRUE, "9000000", SqrtPriceAt(-514)), SwapTo("u2", P1, FALSE, "9000000", SqrtPriceAt(510)),
           OpenP("u2", P1, -513, -257, "300000000000"), OpenP("u2", P1, 255, 256, "300000000000"), OpenP("u2", P1, -1, 0, "300000000000"),
           At("close", "u1", 1), At("close", "u1", 2), At("close", "u2", 0)}]

(* No fee at all: nothing hides an advantage from rounding *)
P0 == "t1/t2/0/10"
Free == [Base EXCEPT
  !.pk = (P0 :> [x |-> "t1", y |-> "t2", fee |-> Zero, sp |-> 10]),
  !.setup = <<AddT(Zero, 10), MkPool("t1", "t2", Zero, 10, -4050)>> \o Fund("u1", "t1", "100000", "k0") \o Fund("u1", "t2", "100000", "k1")
            \o Fund("u2", "t1", "30000", "k2") \o Fund("u2", "t2", "30000", "k3")
            \o <<OpenP("u1", P0, -5000, -3000, "90000000"), OpenP("u1", P0, -4060, -4050, "7000000000"), OpenP("u2", P0, -4050, -4030, "5000000001")>>,
  !.pf = N("250000000000"), !.trips = {N("1"), N("2"), N("7"), N("40"), N("300"), N("4000")}, !.edge = {P0},
  !.ops = {SwapIn("u2", P0, xy, a) : xy \in BOOLEAN, a \in {"1", "3", "17"}} \cup {SwapOut("u2", P0, xy, a) : xy \in BOOLEAN, a \in {"1", "9"}}
          \cup {OpenP("u2", P0, -4060, -4030, "10001"), At("close", "u1", 1), At("close", "u2", 0), At("claim", "u1", 0)}]

(* Amounts on the edge of reaching a tick, where much liquidity lies at tick t *)
PL == "t1/t2/6000000000/1"
EdgeAt(t, w, liq, money) == [Base EXCEPT
  !.pk = (PL :> [x |-> "t1", y |-> "t2", fee |-> Fee6, sp |-> 1]), !.trips = {N("1"), N(money) // N("1000")},
  !.setup = <<AddT(Fee6, 1), MkPool("t1", "t2", Fee6, 1, t)>> \o Fund("u1", "t1", money, "k0") \o Fund("u1", "t2", money, "k1")
            \o Fund("u2", "t1", money, "k2") \o Fund("u2", "t2", money, "k3")
            \o <<OpenP("u1", PL, t - 3 * w, t + 2 * w, liq), OpenP("u1", PL, t - w, t + w, liq)>>,
  !.edge = {PL},
  !.ops = {OpenP("u2", PL, t - 2 * w, t, liq), At("close", "u1", 0), At("close", "u1", 1), At("claim", "u1", 0), At("close", "u2", 0)}]

(* Trading, providing, configuring and moving tokens at the same time, in two pools *)
Mix == [Base EXCEPT
  !.pk = TwoTiers, !.kinds = {"true", "false", "garbage"}, !.most = 2,
  !.setup = Pool1 \o <<AddT(Fee6, 1), MkPool("t1", "t2", Fee6, 1, 3), OpenP("u1", P, -20, 20, "1000000000000"), OpenP("u1", "t1/t2/6000000000/1", -20, 20, "500000000000"),
                       OpenP("u2", P, -10, 10, "300000000000"), SwapIn("u2", P, TRUE, "2000")>>,
  !.ops = {Dep("u2", "t1", "3000"), D2("u1", "2", "5"), W1("u2", "null"), W2("u1", N("4"), N("1")), W2("u2", "null", N("99000000")),
           SwapIn("u2", P, TRUE, "1000"), SwapIn("u1", "t1/t2/6000000000/1", FALSE, "700"), SwapOut("u2", P, FALSE, "400"),
           RouteOp("route", "3000", "0", "0", <<Hop(P, TRUE), Hop("t1/t2/6000000000/1", FALSE)>>),
           OpenP("u2", "t1/t2/6000000000/1", -20, 3, "1000000"), At("close", "u1", 0), At("close", "u2", 0), At("claim", "u1", 0), Give("u1", "u2", 0), Give("u2", "u1", 0),
           [op |-> "wpf", who |-> Admin, pool |-> P], [op |-> "set_pf", who |-> Admin, v |-> N("250000000000")], [op |-> "set_rcv", who |-> Admin, pool |-> P, rcv |-> "u1"],
           [op |-> "wpf", who |-> "u1", pool |-> P], [op |-> "rm_tier", who |-> Admin, fee |-> Fee6, sp |-> 10],
           [op |-> "dep_vara", who |-> "u2", amt |-> N("6")], [op |-> "wd_vara", who |-> "u2", amt |-> "null"], TickBy(60, "180000")}]

Scenario(name) ==
  CASE name = "async" -> Async [] name = "full" -> Full [] name = "amm" -> Amm [] name = "top" -> EndsAt(221600, 200)
    [] name = "bottom" -> EndsAt(-221600, 200) [] name = "lists" -> Lists [] name = "config" -> Config [] name = "routes" -> Routes
    [] name = "quotes" -> Quotes [] name = "queries" -> Queried [] name = "wrap" -> Wrap [] name = "dust" -> Dust [] name = "far" -> Far
    [] name = "free" -> Free [] name = "mix" -> Mix [] name = "low" -> EdgeAt(-200000, 40, "1000000000000000000000000000000000000", "1000000000000000000000000000000000000000000000")
    [] name = "edge" -> EdgeAt(-30000, 200, "1000000000000000000000000000000000000", "1000000000000000000000000000000000000000000000")
    [] name = "high" -> EdgeAt(190000, 40, "1000000000000000000000000000000000000", "1000000000000000000000000000000000000000000000")
=============================================================================
