-------------------------------- MODULE Owners --------------------------------
(***************************************************************************)
(* Positions as things that are owned: every user has a list of them.  A   *)
(* new one is appended to its owner's list; the owner (nobody else) can    *)
(* give one up or hand it to somebody, whereupon the list's last one takes *)
(* its place.  What a position is never changes.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES own,     \* [user -> <<position>>]
          by       \* who acted last

Users == DOMAIN own
Nobody == \A u \in Users : own[u] = <<>>
Rest(us) == \A v \in Users \ us : own'[v] = own[v]
Without(s, i) == SubSeq([s EXCEPT ![i] = s[Len(s)]], 1, Len(s) - 1)

Create == /\ Rest({by'})
          /\ Len(own'[by']) = Len(own[by']) + 1
          /\ SubSeq(own'[by'], 1, Len(own[by'])) = own[by']
GiveUp == /\ Rest({by'})
          /\ \E i \in DOMAIN own[by'] : own'[by'] = Without(own[by'], i)
HandOver == \E i \in DOMAIN own[by'] : \E v \in Users :
              IF v = by' THEN Rest({v}) /\ own'[v] = Append(Without(own[v], i), own[v][i])
              ELSE /\ Rest({by', v})
                   /\ own'[by'] = Without(own[by'], i)
                   /\ own'[v] = Append(own[v], own[by'][i])
Act == by' \in Users /\ (Create \/ GiveUp \/ HandOver)
Spec == Nobody /\ [][Act]_own
=============================================================================
