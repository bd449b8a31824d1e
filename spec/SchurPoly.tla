----------------------------- MODULE SchurPoly ------------------------------
(* Schur polynomials in n variables, by the branching rule: peel off the      *)
(* boxes holding the largest entry, a horizontal strip.  A polynomial is a    *)
(* function from exponent vectors to nonzero integers.                        *)
EXTENDS Partitions

\* partitions nu with lam/nu a horizontal strip and at most rows parts
RECURSIVE StripInside(_, _)
StripInside(l, rows) ==
  IF l = <<>> THEN {<<>>}
  ELSE IF rows = 0 THEN (IF Len(l) > 1 THEN {} ELSE {<<>>})
  ELSE LET lo == At(l, 2)
       IN UNION { { IF a = 0 THEN <<>> ELSE <<a>> \o t : t \in StripInside(Tail(l), rows - 1) }
                : a \in lo .. l[1] }

AddF(f, g) == TLCEval([x \in DOMAIN f \cup DOMAIN g |->
                (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN g THEN g[x] ELSE 0)])
\* multiply by x_n^e: append the exponent
Append1(f, e) == LET D == {Append(x, e) : x \in DOMAIN f}
                 IN TLCEval([y \in D |-> f[SubSeq(y, 1, Len(y) - 1)]])

RECURSIVE SchurPolynomial(_, _)
SchurPolynomial(l, n) ==
  IF Len(l) > n THEN [x \in {} |-> 0]
  ELSE IF n = 0 THEN (<<>> :> 1)
  ELSE FoldSet(LAMBDA nu, acc : AddF(acc, Append1(SchurPolynomial(nu, n - 1), Size(l) - Size(nu))),
               [x \in {} |-> 0], StripInside(l, n - 1))
=============================================================================
