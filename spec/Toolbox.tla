------------------------------ MODULE Toolbox -------------------------------
(* Small partition utilities exposed to users and shared by all families.     *)
EXTENDS Partitions

\* every partition inside the given one, i.e. contained in it row by row with
\* the enumeration's meaning: weakly decreasing sequences mu <= lam
RECURSIVE Below(_, _)
Below(l, cap) ==
  IF l = <<>> \/ cap = 0 THEN {<<>>}
  ELSE UNION { IF a = 0 THEN {<<>>} ELSE {<<a>> \o t : t \in Below(Tail(l), a)}
             : a \in 0 .. Min2(Head(l), cap) }

RECURSIVE LexLess(_, _)
LexLess(a, b) ==        \* Python's order on lists
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
  ELSE LexLess(Tail(a), Tail(b))

\* the same on pairs of lists
PairLess(a, b) == LexLess(a[1], b[1]) \/ (a[1] = b[1] /\ LexLess(a[2], b[2]))

StrictlyIncreasing(s) == \A i \in 1 .. Len(s) - 1 : LexLess(s[i], s[i + 1])
EachOnce(s, S) == ToSet(s) = S /\ Len(s) = Cardinality(S)
=============================================================================
