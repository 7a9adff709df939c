-------------------------------- MODULE Loop --------------------------------
\* While(C, B, s): apply B to s as long as C holds (evaluated by java/Loop.java)
EXTENDS Naturals
While(C(_), B(_), s) ==
  LET f[n \in Nat] == IF n = 0 THEN s ELSE IF C(f[n-1]) THEN B(f[n-1]) ELSE f[n-1]
  IN  f[CHOOSE n \in Nat : ~C(f[n])]
\* F(x); java/Loop.java remembers the values found so far under the given name
Memo(name, F(_), x) == F(x)
\* the same, for large x: forgets what has not been used for long
Recall(name, F(_), x) == F(x)
\* the last number of lo..hi with P, when P holds at lo and, after it fails, never again
Last(P(_), lo, hi) == CHOOSE n \in lo..hi : P(n) /\ (n = hi \/ ~P(n + 1))
=============================================================================
