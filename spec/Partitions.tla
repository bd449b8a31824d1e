----------------------------- MODULE Partitions -----------------------------
(* Integer partitions, k-strict partitions and Young-diagram primitives.     *)
(* A partition is a weakly decreasing sequence of positive integers.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumFun(_, _)     \* sum of f over the finite set S
SumFun(S, f) == IF S = {} THEN 0
                ELSE LET x == CHOOSE y \in S : TRUE
                     IN f[x] + SumFun(S \ {x}, f)

\* Part i of l, with the usual convention l_i = 0 beyond the length.
At(l, i) == IF i <= Len(l) THEN l[i] ELSE 0

RECURSIVE Clip(_)          \* remove trailing zeros
Clip(l) == IF l = <<>> \/ l[Len(l)] # 0 THEN l
           ELSE Clip(SubSeq(l, 1, Len(l) - 1))

Size(l) == SumSeq(l)

IsPartition(l) ==
  /\ \A i \in 1 .. Len(l) : l[i] > 0
  /\ \A i \in 1 .. Len(l) - 1 : l[i] >= l[i + 1]

IsWeakPartition(l) ==      \* trailing zeros allowed
  /\ \A i \in 1 .. Len(l) : l[i] >= 0
  /\ \A i \in 1 .. Len(l) - 1 : l[i] >= l[i + 1]

KStrict(l, k) == \A i \in 1 .. Len(l) - 1 : l[i] > k => l[i] > l[i + 1]

InBox(l, rows, cols) == Len(l) <= rows /\ (l # <<>> => l[1] <= cols)

ColLen(l, c) == Cardinality({i \in 1 .. Len(l) : l[i] >= c})

Conj(l) == IF l = <<>> THEN <<>> ELSE [c \in 1 .. l[1] |-> ColLen(l, c)]

Includes(big, small) == \A i \in 1 .. Len(small) : At(big, i) >= small[i]

(* All k-strict partitions with at most `rows` parts, each at most `cols`.    *)
RECURSIVE KStrictIn(_, _, _)
KStrictIn(k, rows, cols) ==
  IF rows = 0 \/ cols = 0 THEN {<<>>}
  ELSE {<<>>} \cup
       UNION { { <<a>> \o t : t \in KStrictIn(k, rows - 1,
                                              IF a > k THEN a - 1 ELSE a) }
               : a \in 1 .. cols }

(* k = cols gives all partitions in the rectangle.                            *)
PartitionsIn(rows, cols) == KStrictIn(cols, rows, cols)

(* All partitions of d, longest part at most m.                               *)
RECURSIVE PartitionsOf(_, _)
PartitionsOf(d, m) ==
  IF d = 0 THEN {<<>>}
  ELSE UNION { { <<a>> \o t : t \in PartitionsOf(d - a, a) } : a \in 1 .. Min2(d, m) }

Pow2(e) == 2 ^ e

\* Horizontal strip: outer/inner has at most one box in each column.
HorizontalStrip(inner, outer) ==
  /\ Includes(outer, inner)
  /\ \A i \in 1 .. Len(outer) : At(outer, i + 1) <= At(inner, i)
=============================================================================
