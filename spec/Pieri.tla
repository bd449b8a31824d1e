------------------------------- MODULE Pieri --------------------------------
(* Classical Pieri rules stated on boxes of Young diagrams                    *)
(* (Pieri; Hiller-Boe; Buch-Kresch-Tamvakis).  Nothing here follows the       *)
(* enumeration algorithm of the implementation: a Pieri coefficient is a      *)
(* function of the two diagrams.                                              *)
EXTENDS Partitions

(* twice the distance |c-k-1|+r (h = 0: types B, C) or |c-k-1/2|+r            *)
(* (h = 1: type D); two boxes are related iff these agree.                    *)
RelNo(r, c, k, h) == Abs(2 * c - 2 * k - 2 + h) + 2 * r

NewBoxes(l, m) ==
  UNION { {<<r, c>> : c \in (At(l, r) + 1) .. m[r]} : r \in 1 .. Len(m) }

(* mu arises from lam by removing a vertical strip from the first k columns   *)
(* and adding a horizontal strip.                                             *)
StripShape(l, m, k) ==
  \A i \in 1 .. Max2(Len(l), Len(m)) :
     LET li == At(l, i) mi == At(m, i) IN
     /\ mi < li => (mi = li - 1 /\ li <= k)
     /\ At(m, i + 1) <= Min2(li, mi)

(* All mu in the rows x cols rectangle with StripShape(l, mu, k) and |mu| = d  *)
(* (MCPieri checks that this enumeration is exactly that set).                *)
RECURSIVE StripFrom(_, _, _, _, _, _)
StripFrom(l, k, i, rows, cap, d) ==
  IF d < 0 THEN {}
  ELSE IF i > rows \/ cap = 0 THEN (IF d = 0 THEN {<<>>} ELSE {})
  ELSE LET li == At(l, i)
           lo == IF li > 0 /\ li <= k THEN li - 1 ELSE li
       IN UNION { IF a = 0
                  THEN (IF d = 0 THEN {<<>>} ELSE {})
                  ELSE { <<a>> \o t : t \in StripFrom(l, k, i + 1, rows, Min2(li, a), d - a) }
                : a \in lo .. Min2(cap, d) }
StripShapes(l, k, rows, cols, d) == StripFrom(l, k, 1, rows, cols, d)

(* The boxes of column c (c <= k) whose relations are constrained: the bottom *)
(* box when the column is unchanged; the removed boxes and the new bottom box *)
(* when it shrinks; none when it grows.  An empty column has its bottom box   *)
(* in row 0.                                                                  *)
Arrow(l, m, k, h) ==
  /\ StripShape(l, m, k)
  /\ LET new == NewBoxes(l, m)
         RelTo(r, c) == LET d == RelNo(r, c, k, h)
                        IN {b \in new : RelNo(b[1], b[2], k, h) = d}
     IN \A c \in 1 .. k :
          LET a == ColLen(l, c) b == ColLen(m, c) IN
          /\ b = a => Cardinality(RelTo(a, c)) <= 1
          /\ b < a =>
               /\ \A r \in b .. a : Cardinality(RelTo(r, c)) = 1
               /\ \E row \in 1 .. Len(m) :
                    \A r \in b .. a : \A x \in RelTo(r, c) : x[1] = row

(* Boxes of mu\lam beyond column k not mentioned by the conditions above.     *)
FreeBoxes(l, m, k, h) ==
  LET new == NewBoxes(l, m)
      marks == UNION { LET a == ColLen(l, c) b == ColLen(m, c)
                       IN IF b > a THEN {}
                          ELSE {RelNo(r, c, k, h) : r \in b .. a}
                     : c \in 1 .. k }
  IN {x \in new : x[2] > k /\ RelNo(x[1], x[2], k, h) \notin marks}

(* Leftmost boxes of the connected components (boxes sharing a vertex) of a   *)
(* set of boxes having at most one box per column.                            *)
ComponentStarts(A) ==
  {x \in A : ~ \E y \in A : y[2] = x[2] - 1 /\ Abs(y[1] - x[1]) <= 1}

(* ---- type A ------------------------------------------------------------- *)
PieriCoefA(p, l, m) ==
  IF Size(m) = Size(l) + p /\ HorizontalStrip(l, m) THEN 1 ELSE 0

(* ---- type C ------------------------------------------------------------- *)
PieriCoefC(p, l, m, k) ==
  IF Size(m) = Size(l) + p /\ Arrow(l, m, k, 0)
  THEN Pow2(Cardinality({x \in ComponentStarts(FreeBoxes(l, m, k, 0)) : x[2] # k + 1}))
  ELSE 0

(* ---- type B ------------------------------------------------------------- *)
PieriCoefB(p, l, m, k) ==
  IF Size(m) = Size(l) + p /\ Arrow(l, m, k, 0)
  THEN Pow2(Cardinality(ComponentStarts(FreeBoxes(l, m, k, 0))) - (IF p <= k THEN 0 ELSE 1))
  ELSE 0

(* ---- type D: typed partitions ------------------------------------------- *)
(* A typed partition is <<lam, t>>: t = 0 if no part equals k (or k = 0),     *)
(* otherwise t is 1 or 2.  Special classes: p > 0, p # k : tau_p;             *)
(* p = k : tau_k; p = -k : tau'_k.                                            *)
ShrunkCols(l, m, k) ==
  Cardinality({c \in 1 .. k : ColLen(m, c) <= ColLen(l, c)})

PieriCoefD(p, lt, mt, k) ==
  LET l == lt[1]  m == mt[1]  q == Abs(p) IN
  IF /\ Size(m) = Size(l) + q
     /\ lt[2] + mt[2] # 3
     /\ Arrow(l, m, k, 1)
  THEN LET comps == Cardinality(ComponentStarts(FreeBoxes(l, m, k, 1)))
           h == ShrunkCols(l, m, k) + Max2(lt[2], mt[2])
       IN IF q < k THEN Pow2(comps)
          ELSE IF q > k \/ comps > 0 THEN Pow2(comps - 1)
          ELSE IF (h % 2 = 1) = (p > 0) THEN 1 ELSE 0
  ELSE 0
=============================================================================
