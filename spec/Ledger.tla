-------------------------------- MODULE Ledger --------------------------------
(***************************************************************************)
(* What deposits, withdrawals and trades are to a user, without pools:     *)
(* a book of balances, transfers that have been requested of the token     *)
(* programs and not been answered, and the tokens the exchange holds.      *)
(* Module Dex refines this (MC!Books): each transfer is settled at most    *)
(* once, a deposit is credited exactly if it was confirmed, a withdrawal   *)
(* is debited when it is requested and given back exactly if it was        *)
(* refused, and nothing else touches anybody but the one who acts.         *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

VARIABLES bal,      \* [user -> [token -> amount]]
          pend,     \* [transfer -> [who, tok, amt, dep]]
          held      \* [token -> amount]
book == <<bal, pend, held>>

At(f, t) == IF t \in DOMAIN f THEN f[t] ELSE Zero
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN Zero ELSE LET k == CHOOSE x \in s : TRUE IN f[k] ++ Sum(f, s \ {k})
Users == DOMAIN bal
Tokens(u) == DOMAIN bal[u] \cup DOMAIN bal'[u]
OnlyBy(u) == \A v \in Users \ {u} : bal'[v] = bal[v]

Open == /\ \A u \in Users : bal[u] = <<>>
        /\ pend = <<>> /\ held = <<>>

\* one user asks for one or two transfers in the same direction
New == DOMAIN pend' \ DOMAIN pend
Request ==
  /\ New # {} /\ Cardinality(New) <= 2
  /\ \A k \in DOMAIN pend : k \in DOMAIN pend' /\ pend'[k] = pend[k]
  /\ held' = held
  /\ \E u \in Users :
     LET of(t) == Sum([k \in New |-> pend'[k].amt], {k \in New : pend'[k].tok = t})
     IN  /\ OnlyBy(u)
         /\ \A k \in New : pend'[k].who = u /\ pend'[k].amt \succ Zero
         /\ \/ (\A k \in New : pend'[k].dep) /\ bal' = bal
            \/ /\ \A k \in New : ~pend'[k].dep
               /\ \A t \in Tokens(u) : At(bal[u], t) = At(bal'[u], t) ++ of(t)
               /\ \A k \in New : pend'[k].tok \in Tokens(u)

\* transfer k is answered: the balance grows by a, the exchange's tokens
\* change as the answer says
Gone(k) == pend' = [x \in DOMAIN pend \ {k} |-> pend[x]]
Booked(k) ==
  LET p == pend[k]
  IN  /\ OnlyBy(p.who)
      /\ \A t \in Tokens(p.who) \cup {p.tok} :
           At(bal'[p.who], t) = IF t = p.tok THEN At(bal[p.who], t) ++ p.amt ELSE At(bal[p.who], t)
Full(k) == IsNaN(Fit(At(bal[pend[k].who], pend[k].tok) ++ pend[k].amt, 256))
Moved(k) ==
  LET p == pend[k]
  IN  /\ Gone(k)
      /\ \A t \in DOMAIN held \cup DOMAIN held' \cup {p.tok} :
           IF t # p.tok THEN At(held', t) = At(held, t)
           ELSE IF p.dep THEN At(held', t) = At(held, t) ++ p.amt
           ELSE At(held, t) = At(held', t) ++ p.amt
      /\ IF p.dep /\ ~Full(k) THEN Booked(k) ELSE bal' = bal
Refused(k) ==
  /\ Gone(k) /\ held' = held
  /\ IF ~pend[k].dep /\ ~Full(k) THEN Booked(k) ELSE bal' = bal
\* the answer says nothing: assume what is worse for the exchange
Unclear(k) == IF pend[k].dep THEN Gone(k) /\ held' = held /\ bal' = bal ELSE Moved(k)
Answered == \E k \in DOMAIN pend : Moved(k) \/ Refused(k) \/ Unclear(k)

\* trades, positions, fees, native coins: between one user and the pools
Inside == pend' = pend /\ held' = held /\ \E u \in Users : OnlyBy(u)

Act == Request \/ Answered \/ Inside
Spec == Open /\ [][Act]_book
=============================================================================
