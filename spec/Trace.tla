-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: does a history recorded from the compiled contract follow  *)
(* the specification Dex?  After every recorded operation the whole        *)
(* observable state is known (obs).  Every step is predicted by Dex!Step   *)
(* from the state observed before it; what differs is reported as a set of *)
(* aspects <<operation, aspect>>.  Besides, the invariants of the          *)
(* properties are evaluated on every observed state (aspects "inv...").    *)
(* Prop selects the aspects that violate the property being checked.       *)
(***************************************************************************)
EXTENDS Props, TraceIO

CONSTANTS Prop, File, Max
Traces == ReadTraces(File)

VARIABLES tr, i, obs, gh, bad
vars == <<tr, i, obs, gh, bad>>

(***************************************************************************)
(* The observed state.                                                     *)
(***************************************************************************)
RECURSIVE PutTicks(_, _)
PutTicks(T, q) == IF q = <<>> THEN T ELSE PutTicks((Head(q).i :> NormTick(Head(q))) @@ T, Tail(q))

D(d, k, v) == IF Has(d, k) THEN d[k] ELSE v

Observe(o, st) ==
  LET d == st.d
      gone == SetOf(D(d, "gone", <<>>))
      pools == D(d, "pools", <<>>) @@ o.pools
      dt == D(d, "ticks", <<>>)
      db == D(d, "bits", <<>>)
  IN  [pf |-> D(d, "pf", o.pf), tiers |-> D(d, "tiers", o.tiers), keys |-> D(d, "keys", o.keys),
       pools |-> [n \in DOMAIN pools \ gone |-> pools[n]],
       ticks |-> [n \in DOMAIN dt |->
                    LET T == Old(o.ticks, n, <<>>)
                        del == SetOf(dt[n].del)
                    IN  PutTicks([k \in DOMAIN T \ del |-> T[k]], dt[n].set)] @@ o.ticks,
       bits |-> [n \in DOMAIN db |-> BitSet(db[n])] @@ o.bits,
       pos |-> D(d, "pos", <<>>) @@ o.pos,
       bal |-> D(d, "bal", <<>>) @@ o.bal,
       nb |-> st.nb, errs |-> D(d, "errs", <<>>)]

\* the state the specification starts from: what was observed, plus the
\* transfers in flight and the callers waiting, which no query shows
StateOf(o, g, pk) ==
  [pf |-> o.pf, tiers |-> o.tiers, keys |-> o.keys, pools |-> o.pools, ticks |-> o.ticks,
   pos |-> o.pos, bal |-> o.bal, nb |-> o.nb, aw |-> g.aw, wt |-> g.wt, nk |-> g.nk, pk |-> pk]

(***************************************************************************)
(* Differences between the predicted and the recorded step                 *)
(***************************************************************************)
ErrOps == {"get_pool", "get_pos", "get_posa", "get_tick", "get_positions", "pools_pair", "quote", "quote_route", "liq_ticks"}
IsErr(op, x) == op \in ErrOps /\ HasField(x, "err")

NormRes(op, x) ==
  CASE op \in {"swap", "quote"} -> [x EXCEPT !.ticks = [k \in DOMAIN @ |-> NormTick(@[k])]]
    [] op = "get_posa" -> [x EXCEPT ![3] = NormTick(@), ![4] = NormTick(@)]
    [] op = "get_tick" -> NormTick(x)
    [] op = "get_tickmap" -> IF \A k \in DOMAIN x : Len(x[k]) = 2 THEN BitSet(x) ELSE {}
    [] op = "liq_ticks" -> [k \in DOMAIN x |-> NormTick(x[k])]
    [] OTHER -> x

SameRes(op, pred, st) ==
  IF ~Has(st, "res") THEN FALSE
  ELSE IF IsErr(op, pred) \/ IsErr(op, st.res) THEN IsErr(op, pred) /\ IsErr(op, st.res)
  ELSE (IF op = "get_tickmap" THEN pred ELSE NormRes(op, pred)) = NormRes(op, st.res)

FinView(f) == {<<f[k].id, f[k].out, IF f[k].out = "ok" THEN f[k].res ELSE "none">> : k \in DOMAIN f}
MsgView(m) == {<<m[k].id, m[k].tok, m[k].from, m[k].to, m[k].amt, m[k].val>> : k \in DOMAIN m}
MsgsReadable(m) == \A k \in DOMAIN m : m[k].id # "bad"

\* who and which pools a step may touch
Users(st, g) ==
  IF st.op = "reply" THEN IF st.id \in DOMAIN g.tr THEN {g.tr[st.id].who} ELSE {}
  ELSE IF st.op = "tick" THEN {}
  ELSE {st.who} \cup (IF Has(st, "to") THEN {st.to} ELSE {})
PoolsOf(st, o) ==
  CASE st.op \in {"open", "swap", "wpf", "set_rcv"} -> {st.pool}
    [] st.op = "route" -> {st.hops[k].pool : k \in DOMAIN st.hops}
    [] st.op \in {"close", "claim"} ->
         IF st.who \in DOMAIN o.pos /\ st.i + 1 \in DOMAIN o.pos[st.who] THEN {o.pos[st.who][st.i + 1].pool} ELSE {}
    [] OTHER -> {}

PoolFields == {"liq", "sp", "tick", "fgx", "fgy", "fpx", "fpy", "st", "lt", "rcv"}
TickFields == {"sign", "ch", "gr", "sp", "fox", "foy", "so"}
PosFields == {"pool", "liq", "lo", "up", "fix", "fiy", "blk", "ox", "oy"}

PosDiff(a, b) ==
  IF Len(a) # Len(b) THEN {"pos.len"}
  ELSE UNION {{"pos." \o f : f \in {f \in PosFields : a[k][f] # b[k][f]}} : k \in DOMAIN a}

\* S: predicted state after; o: observed state after; b: observed before
Diff(S, o, b, st, g) ==
  LET us == Users(st, g)
      ps == PoolsOf(st, b)
      U == DOMAIN o.pos
  IN  (IF S.pf # o.pf THEN {"pf"} ELSE {})
      \cup (IF S.tiers # o.tiers THEN {"tiers"} ELSE {})
      \cup (IF S.keys # o.keys THEN {"keys"} ELSE {})
      \cup (IF DOMAIN S.pools # DOMAIN o.pools THEN {"pools"} ELSE {})
      \cup UNION {{IF n \in ps THEN "pool." \o f ELSE "pool_other" : f \in {f \in PoolFields : S.pools[n][f] # o.pools[n][f]}}
                   : n \in DOMAIN S.pools \cap DOMAIN o.pools}
      \cup UNION {LET A == NormTicks(Ticks(S, n))
                      B == Ticks(o, n)
                  IN  IF A = B THEN {}
                      ELSE IF n \notin ps THEN {"tick_other"}
                      ELSE (IF DOMAIN A # DOMAIN B THEN {"tick.dom"} ELSE {})
                           \cup UNION {{"tick." \o f : f \in {f \in TickFields : A[t][f] # B[t][f]}}
                                        : t \in DOMAIN A \cap DOMAIN B}
                  : n \in DOMAIN S.pools \cap DOMAIN o.pools}
      \cup UNION {IF S.pos[u] = o.pos[u] THEN {} ELSE IF u \in us THEN PosDiff(S.pos[u], o.pos[u]) ELSE {"pos_other"} : u \in U}
      \cup UNION {IF S.bal[u] = o.bal[u] THEN {}
                  ELSE IF u \notin us THEN {"bal_other"}
                  ELSE {"bal"} \cup (IF \E t \in DOMAIN o.bal[u] : Bal(S, u, t) \prec o.bal[u][t] THEN {"bal+"} ELSE {})
                               \cup (IF \E t \in DOMAIN S.bal[u] : Bal(o, u, t) \prec S.bal[u][t] THEN {"bal-"} ELSE {})
                               \* a token the operation has nothing to do with
                               \cup (IF \E t \in DOMAIN S.bal[u] \cup DOMAIN o.bal[u] :
                                         Bal(S, u, t) = Bal(b, u, t) /\ Bal(o, u, t) # Bal(b, u, t) THEN {"bal_tok"} ELSE {})
                  : u \in U}
      \cup (IF S.nb # o.nb THEN {"nb"} ELSE {})

\* a quote refuses either by an error answer or by failing
QuoteFailed(st) == st.op \in {"quote", "quote_route"} /\ st.out = "fail"
OutDiff(r, st) ==
  IF QuoteFailed(st) /\ r.out = "ok" /\ IsErr(st.op, r.res) THEN {}
  ELSE IF r.out # st.out THEN {"out", "out:" \o r.out \o ">" \o st.out} ELSE
    (IF r.out = "ok" /\ st.op \notin {"reply", "tick"} /\ ~SameRes(st.op, r.res, st) THEN {"res"} ELSE {})
\* a pool whose fee tier has been removed stays usable
Retired(r, st, o, pk) ==
  IF r.out = "ok" /\ st.out = "fail" /\ \E n \in PoolsOf(st, o) : n \in DOMAIN pk /\ ~HasTier(o, pk[n].fee, pk[n].sp) THEN {"retired"} ELSE {}
StepDiff(r, st, o1, o, g) ==
  OutDiff(r, st)
  \cup (IF r.ev # st.ev THEN {"ev"} ELSE {})
  \cup (IF ~MsgsReadable(st.msgs) \/ Len(r.msgs) # Len(st.msgs) THEN {"msgs"}
        ELSE IF MsgView(r.msgs) # MsgView(st.msgs) THEN {"msgs"} ELSE {})
  \cup (IF FinView(r.fin) # FinView(st.fin) THEN {"fin"} ELSE {})
  \* value sent back with an answer: only a native withdrawal pays out
  \cup (IF Has(st, "rv") /\ st.rv # (IF st.op = "wd_vara" /\ r.out = "ok" THEN r.res ELSE Zero) THEN {"rv"} ELSE {})
  \cup (IF \E k \in DOMAIN st.fin : Has(st.fin[k], "rv") /\ ~IsZero(st.fin[k].rv) THEN {"rv"} ELSE {})
  \cup Diff(r.S, o1, o, st, g)

(***************************************************************************)
(* Relations between steps                                                 *)
(***************************************************************************)
\* a quote directly followed by the swap it quotes
QuoteDiff(g, st) ==
  IF st.op # "swap" \/ g.last = <<>> THEN {}
  ELSE LET q == g.last[1]
       IN  IF ~(q.op = "quote" /\ q.pool = st.pool /\ q.xy = st.xy /\ q.amt = st.amt /\ q.in = st.in /\ q.lim = st.lim) THEN {}
           ELSE IF QuoteFailed(q) THEN (IF st.out = "ok" THEN {"quote"} ELSE {})
           ELSE IF q.out # "ok" \/ ~Has(q, "res") THEN {"quote"}
           ELSE IF IsErr("quote", q.res) THEN (IF st.out = "ok" THEN {"quote"} ELSE {})
           ELSE IF st.out # "ok" THEN {}
           ELSE IF (/\ q.res.in = st.res.in /\ q.res.out = st.res.out /\ q.res.s1 = st.res.s1
                    /\ NormRes("quote", q.res).ticks = NormRes("swap", st.res).ticks)
                THEN {} ELSE {"quote"}
RouteDiff(g, st) ==
  IF st.op # "route" \/ g.last = <<>> THEN {}
  ELSE LET q == g.last[1]
           distinct == Cardinality({st.hops[k].pool : k \in DOMAIN st.hops}) = Len(st.hops)
       IN  IF ~(q.op = "quote_route" /\ q.amt = st.amt /\ q.hops = st.hops /\ distinct) THEN {}
           ELSE IF QuoteFailed(q) THEN (IF st.out = "ok" THEN {"quote"} ELSE {})
           ELSE IF q.out # "ok" \/ ~Has(q, "res") THEN {"quote"}
           ELSE IF IsErr("quote_route", q.res) THEN (IF st.out = "ok" THEN {"quote"} ELSE {})
           ELSE IF st.out # "ok" THEN {}
           ELSE IF q.res = st.res THEN {} ELSE {"quote"}

\* an operation that fails changes nothing and says nothing
NoTrace(st, o, o1) ==
  IF st.out \in {"ok", "wait", "skip"} \/ st.op = "reply" THEN {}
  ELSE IF /\ [o EXCEPT !.errs = <<>>] = [o1 EXCEPT !.errs = <<>>]
          /\ st.ev = <<>> /\ st.msgs = <<>> /\ st.fin = <<>> THEN {} ELSE {"inv.trace"}

(***************************************************************************)
(* Which invariants are evaluated for which property                       *)
(***************************************************************************)
Wants(inv) ==
  CASE inv \in {"solvent", "owed"} -> Prop \in {"P01", "all"}
    [] inv = "liq" -> Prop \in {"P05", "all"}
    [] inv = "bits" -> Prop \in {"P06", "P20", "all"}
    [] inv = "coherent" -> Prop \in {"P04", "all"}
    [] inv = "fees" -> Prop \in {"P07", "P08", "all"}
    [] inv = "claims" -> Prop \in {"P02", "P08", "all"}
    [] inv = "seconds" -> Prop \in {"P28", "all"}
    [] inv = "trace" -> Prop \in {"P14", "all"}

\* more is owed after the operation than there should be
OwesMore(o, S, g, pk) ==
  \E t \in Tokens(o, g, pk) : LET w == Owed(S, g, pk, t) IN ~IsNaN(w) /\ w \prec Owed(o, g, pk, t)

Invs(o, o1, g1, st, pk) ==
  (IF Wants("solvent") /\ ~Solvent(o1, g1, pk) THEN {"inv.solvent"} ELSE {})
  \cup (IF Wants("liq") /\ \E n \in DOMAIN o1.pools : ~LiqOk(o1, n) THEN {"inv.liq"} ELSE {})
  \cup (IF Wants("liq") /\ \E n \in DOMAIN o1.pools : ~TickSums(o1, n) THEN {"inv.sums"} ELSE {})
  \cup (IF Wants("bits") /\ \E n \in DOMAIN o1.pools : ~BitsOk(o1, n, pk[n].sp) THEN {"inv.bits"} ELSE {})
  \cup (IF Wants("coherent") /\ \E n \in DOMAIN o1.pools : ~Coherent(o1.pools[n], pk[n].sp) THEN {"inv.coherent"} ELSE {})
  \cup (IF Wants("fees") /\ g1.track /\ AccFits(g1.acc, o1) /\ ~FeesOk(g1.acc, o1) THEN {"inv.fees"} ELSE {})
  \cup (IF Wants("claims") THEN SameClaims(st, o, o1) ELSE {})
  \cup (IF Wants("seconds") /\ g1.track /\ AccFits(g1.acc, o1) /\ ~SecondsOk(g1.acc, o1, st.ts) THEN {"inv.seconds"} ELSE {})
  \cup (IF ~TimesOk(o, o1) THEN {"inv.times"} ELSE {})
  \cup (IF Has(st, "must") /\ st.out \notin {"ok", "wait"} THEN {"inv.exit"} ELSE {})
  \cup (IF Wants("trace") THEN NoTrace(st, o, o1) ELSE {})

(***************************************************************************)
(* Which aspects violate which property                                    *)
(***************************************************************************)
Trades == {"swap", "route"}
Posn == {"open", "close", "claim", "transfer"}
Config == {"set_pf", "add_tier", "rm_tier", "create_pool", "set_rcv"}
Tokn == {"dep1", "dep2", "wd1", "wd2", "reply", "tick"}
PoolF(s) == {"pool." \o f : f \in s}
AnyPos == {"pos." \o f : f \in PosFields} \cup {"pos.len"}
TickAny == {"tick." \o f : f \in TickFields} \cup {"tick.dom"}

Violates(op, a) ==
  LET out == a \in {"out", "res"}
      other == a \in {"bal_other", "pos_other", "pool_other", "tick_other"}
  IN
  CASE Prop = "all" -> TRUE
    [] Prop = "P01" -> a \in {"inv.solvent", "inv.exit", "bal+", "owed+"} \/ (a = "out" /\ op \in {"close", "claim", "wd1", "wd2", "wd_vara", "wpf"})
                       \/ (op \in {"reply", "tick"} /\ a \in {"bal", "bal_other"})
    [] Prop = "P02" -> other \/ a \in {"inv.claims", "bal_tok"} \/ (op \notin Config /\ a \in {"pf", "tiers", "keys", "pools", "pool.rcv"})
    [] Prop = "P03" -> op \in Trades \cup {"quote"} /\ (out \/ a \in {"bal", "pool.sp", "pool.fgx", "pool.fgy", "pool.fpx", "pool.fpy"})
    [] Prop = "P04" -> a = "inv.coherent" \/ (op \in Trades \cup {"quote"} /\ (out \/ a \in PoolF({"sp", "tick", "liq"}) \cup TickAny))
                       \/ (op \notin Trades /\ a \in PoolF({"sp", "tick"}) \cup {"pool_other"})
    [] Prop = "P05" -> a \in {"inv.liq", "inv.sums", "pool.liq", "tick.dom", "tick.gr", "tick.ch", "tick.sign", "dangling"}
    [] Prop = "P06" -> a \in {"inv.bits", "tick.dom"} \/ (op \in {"get_tickmap", "tick_init", "tick_count"} /\ out)
                       \/ (op \in Trades \cup {"quote"} /\ a \in {"out", "pool.tick", "tick.fox", "tick.foy"})
    [] Prop = "P07" -> a = "inv.fees" \/ a \in {"tick.fox", "tick.foy"} \/ (op \in Trades /\ a \in PoolF({"fgx", "fgy"}))
                       \/ (op \in {"claim", "close"} /\ (out \/ a \in {"bal", "pos.fix", "pos.fiy", "pos.ox", "pos.oy"}))
                       \/ (op = "open" /\ a \in {"pos.fix", "pos.fiy", "pos.ox", "pos.oy", "pool.fgx", "pool.fgy"})
    [] Prop = "P08" -> a \in {"inv.fees", "inv.claims"}
                       \/ (op \in {"claim", "close"} /\ (out \/ a \in {"bal", "bal_other", "pos_other", "pool.fgx", "pool.fgy", "pos.fix", "pos.fiy", "pos.ox", "pos.oy", "pos.liq", "pos.len", "tick.fox", "tick.foy"}))
                       \/ (op \in {"open", "transfer"} /\ a \in {"pos.fix", "pos.fiy", "pos.ox", "pos.oy"})
    [] Prop = "P09" -> a \in PoolF({"fpx", "fpy"}) \/ (op \in {"wpf", "set_pf", "get_pf", "set_rcv"}) \/ a \in {"pf", "pool.rcv"}
                       \/ (a = "pool_other" /\ op \in {"wpf", "set_rcv"})
    [] Prop = "P10" -> op \in {"open", "close"} /\ (out \/ a \in {"bal", "pos.liq", "pos.lo", "pos.up", "pool.liq", "pool.sp", "pool.tick"})
    [] Prop = "P11" -> a \in AnyPos \cup {"pos_other", "dangling"} \/ (op \in Posn \cup {"get_pos", "get_posa", "get_all_pos", "pos_count", "get_positions"} /\ out)
    [] Prop = "P12" -> a = "quote" \/ (op = "quote" /\ a # "ev") \/ (op = "quote_route")
    [] Prop = "P13" -> op \in {"route", "quote_route"}
    [] Prop = "P14" -> a \in {"inv.trace", "out:fail>ok", "out:fail>wait"} \/ (op = "reply" /\ a \in {"out:ok>fail"})
    [] Prop = "P15" -> op \in {"dep1", "dep2"} \/ (op \in {"reply", "tick"} /\ a \in {"bal", "bal+", "bal_other", "fin", "msgs", "nb", "out"}) \/ a = "wait"
    [] Prop = "P16" -> op \in {"wd1", "wd2"} \/ (op \in {"reply", "tick"} /\ a \in {"bal", "bal-", "bal+", "bal_other", "fin", "msgs", "nb", "out"})
    [] Prop = "P17" -> op \in {"dep_vara", "wd_vara"} \/ a \in {"nb", "rv"} \/ (op \in {"dep1", "dep2", "wd1", "wd2"} /\ a = "out:fail>wait")
    [] Prop = "P18" -> (op \in {"set_pf", "add_tier", "rm_tier", "set_rcv", "wpf"} /\ a \in {"out", "out:fail>ok", "out:ok>fail", "pf", "tiers", "pool.rcv", "bal"})
                       \/ a \in {"pf", "tiers", "pool.rcv"}
    [] Prop = "P19" -> op \in {"add_tier", "rm_tier", "create_pool", "tier_exists", "get_tiers", "get_pool", "get_keys"}
                       \/ a \in {"tiers", "keys", "pools", "pool.rcv", "retired"}
                       \/ (op \notin Trades /\ a = "pool.st")
    [] Prop = "P20" -> op \in Queries \ {"quote", "quote_route"} \/ a \in {"errs", "inv.bits", "pools", "dangling"}
    [] Prop = "P22" -> a \in {"bal", "bal+", "bal-", "pool.liq", "pool.fpx", "pool.fpy", "pool.fgx", "pool.fgy", "pool.sp", "tick.gr", "tick.ch", "pos.ox", "pos.oy", "pos.liq", "res", "out", "inv.solvent"}
    [] Prop = "P25" -> a = "ev"
    [] Prop = "P28" -> a \in {"inv.seconds", "inv.times", "pool.st", "pool.lt", "tick.so", "pos.blk"} \/ (a = "res" /\ op \in {"pos_ticks"})
    [] OTHER -> FALSE

(***************************************************************************)
Init == /\ tr \in 1..(IF Len(Traces) < Max THEN Len(Traces) ELSE Max)
        /\ i = 1
        /\ LET t == Traces[tr]
               users == SetOf(t.users)
               o0 == [pf |-> Zero, tiers |-> <<>>, keys |-> <<>>, pools |-> <<>>, ticks |-> <<>>, bits |-> <<>>,
                      pos |-> [u \in users |-> <<>>], bal |-> [u \in users |-> <<>>], nb |-> Zero, errs |-> <<>>]
           IN  /\ obs = Observe(o0, t.steps[1])
               /\ gh = [aw |-> <<>>, wt |-> <<>>, nk |-> 0, held |-> <<>>, tr |-> <<>>,
                        acc |-> [u \in users |-> <<>>], track |-> TRUE, dead |-> FALSE, last |-> <<>>, ts |-> t.steps[1].ts]
               /\ bad = IF [obs EXCEPT !.errs = <<>>] = [o0 EXCEPT !.pf = t.steps[1].pf] THEN {} ELSE {<<"init", "out">>}

\* every transfer ever requested
NewTr(r) == [k \in {r.msgs[j].id : j \in DOMAIN r.msgs} |-> r.S.aw[k]]

\* a history is a sequence of steps, or a tree of them: the steps that follow
\* a step are listed with it
After(t, k) == IF Has(t.steps[k], "kids") THEN SetOf(t.steps[k].kids) ELSE {k + 1} \cap 1..Len(t.steps)

Next ==
  /\ bad = {} /\ ~gh.dead
  /\ \E j \in After(Traces[tr], i) :
     LET t == Traces[tr]
         st == t.steps[j]
         pk == t.pk
     IN /\ i' = j /\ tr' = tr
        /\ obs' = Observe(obs, st)
        /\ IF st.out = "skip" THEN gh' = [gh EXCEPT !.last = <<>>] /\ bad' = {}
           ELSE
           \E r \in {Step(StateOf(obs, gh, pk), st)} :
           \E d \in {StepDiff(r, st, obs', obs, gh) \cup Retired(r, st, obs, pk)} :
           LET wf == WF(obs', pk)
               track == wf /\ gh.track /\ d \cap ({"pos.len", "pos_other", "out"} \cup AnyPos) = {}
           IN /\ gh' = [gh EXCEPT !.aw = r.S.aw, !.wt = r.S.wt, !.nk = gh.nk + Len(st.msgs),
                                  !.tr = NewTr(r) @@ @, !.held = Held(gh, st),
                                  !.acc = IF track THEN Acc(@, obs, obs', r, st, st.ts -- gh.ts) ELSE @,
                                  !.track = track, !.dead = ~wf,
                                  !.ts = st.ts,
                                  !.last = IF st.op \in {"quote", "quote_route"} THEN <<st>> ELSE <<>>]
              /\ bad' = {<<st.op, a>> : a \in {a \in
                   d \cup QuoteDiff(gh, st) \cup RouteDiff(gh, st)
                     \cup (IF ~Shown(obs') THEN {"errs"} ELSE {})
                     \cup (IF Dangling(obs') THEN {"dangling"} ELSE {})
                     \cup (IF wf /\ Wants("owed") /\ d # {} /\ OwesMore(obs', r.S, gh', pk) THEN {"owed+"} ELSE {})
                     \cup (IF wf THEN Invs(obs, obs', gh', st, pk) ELSE {}) : Violates(st.op, a)}}
              \* (an ill-formed state cannot be followed any further)
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
Conforms == bad = {}
Short == [trace |-> tr, step |-> i, tag |-> Traces[tr].tag, bad |-> bad]
=============================================================================
