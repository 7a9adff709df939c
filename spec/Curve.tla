-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* What the arithmetic is about, in exact fractions: liquidity L (of 10^5) *)
(* between the prices a and b (of 10^24) is worth                          *)
(*     x = L (1/a - 1/b)   and   y = L (b - a).                            *)
(* The laws say on which side of these values an amount lies, and how far  *)
(* it may be from them at most.  They do not mention how amounts are       *)
(* computed; modules SwapMath and Pool have to satisfy them (MC!Fair), and *)
(* so have the answers of the compiled functions (Calc!Lemmas).            *)
(***************************************************************************)
EXTENDS Fixed

E33 == E28 ** E5
E48 == E24 ** E24
Gap(a, b) == Dist(a, b)
(* amount q of token x (up: charged, else paid out) for L between a and b; *)
(* less than one unit of the numerator may be lost, and the product of the *)
(* prices is only known to one unit                                        *)
FairX(q, a, b, L, up) ==
  LET ab == a ** b
      lost == IF L ** Gap(a, b) \prec E5 THEN Zero ELSE L ** Gap(a, b) -- E5
  IN  IF up THEN /\ q ** (E5 ** ab) \succeq lost ** E24
                 /\ q \preceq N("2") \/ (q -- N("2")) ** (E5 ** (ab -- E24)) \preceq (L ** Gap(a, b)) ** E24
      ELSE /\ q ** (E5 ** ab) \preceq (L ** Gap(a, b)) ** E24
           /\ (q ++ N("2")) ** (E5 ** (ab ++ E24)) \succeq lost ** E24
(* token y: the next whole number                                          *)
FairY(q, a, b, L, up) ==
  LET n == L ** Gap(a, b)
      u == E5 ** E24
  IN  IF up THEN q ** u \succeq n /\ (IsZero(q) \/ (q -- One) ** u \prec n)
      ELSE q ** u \preceq n /\ (q ++ One) ** u \succ n

(* price r after x tokens x came (add) or went: no lower than it should be *)
FairNextX(r, p, L, x, add) ==
  LET l == L ** E19
      d == IF add THEN l ++ p ** x ELSE l -- p ** x
  IN  IF IsZero(x) \/ IsZero(r) THEN r = p \/ IsZero(L)
      ELSE r ** d \succeq p ** l /\ (r -- One) ** d \preceq (p ** L ++ E5) ** E19
(* price r after y tokens y came (add) or went: no higher                  *)
FairNextY(r, p, L, y, add) ==
  LET l == L ** E19
  IN  IF add THEN (r -- p) ** l \preceq y ** E48 /\ (r ++ One -- p) ** l \succ y ** E48
      ELSE (p -- r) ** l \succeq y ** E48 /\ (r = p \/ (p -- r -- One) ** l \prec y ** E48)

(***************************************************************************)
(* One step of a swap from price cur to price next (target: as far as it   *)
(* may go) with amt tokens left: the trader pays at least what the curve   *)
(* asks plus the fee, receives at most what it gives, and neither more     *)
(* than the amount at hand.                                                *)
(***************************************************************************)
Between(a, x, b) == (a \preceq x /\ x \preceq b) \/ (b \preceq x /\ x \preceq a)
FairStep(cur, target, L, amt, byIn, fee, next, in, out, f) ==
  LET xy == target \preceq cur
  IN  /\ Between(cur, next, target)
      /\ IF IsZero(L) THEN next = target /\ IsZero(in) /\ IsZero(out) /\ IsZero(f)
         ELSE /\ IF xy THEN in ** (E5 ** (cur ** next)) \succeq (IF L ** Gap(cur, next) \prec E5 THEN Zero ELSE L ** Gap(cur, next) -- E5) ** E24
                 ELSE in ** (E5 ** E24) \succeq L ** Gap(cur, next)
              /\ IF xy THEN out ** (E5 ** E24) \preceq L ** Gap(cur, next)
                 ELSE out ** (E5 ** (cur ** next)) \preceq (L ** Gap(cur, next)) ** E24
              /\ f ** E12 \succeq in ** fee
              /\ byIn => in ++ f \preceq amt /\ in ** E12 \preceq amt ** (E12 -- fee)
              /\ byIn /\ next # target => in ++ f = amt
              /\ ~byIn => out \preceq amt

(* fees: growth per unit of liquidity never exceeds what was paid          *)
FairGrowth(g, fee, L) == g ** L \preceq fee ** E33 /\ (g ++ One) ** L \succ fee ** E33
FairFee(q, g, L) == q ** E33 \preceq g ** L /\ (q ++ One) ** E33 \succ g ** L
(* the part of a fee: the protocol's share rounded up, the rest for L      *)
FairShare(fee, prot, g, L, pf) ==
  /\ prot ** E12 \succeq fee ** pf /\ (IsZero(prot) \/ (prot -- One) ** E12 \prec fee ** pf)
  /\ FairGrowth(g, fee -- prot, L)
=============================================================================
