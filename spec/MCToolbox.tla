----------------------------- MODULE MCToolbox ------------------------------
(* Diagrams grown box by box inside a rectangle: conjugation, the enumeration *)
(* of k-strict partitions, inclusion and the drawings, compared with their    *)
(* meaning on boxes.                                                          *)
EXTENDS Render, Toolbox

CONSTANTS MaxRows, MaxCols

VARIABLES l, k
Init == l = <<>> /\ k \in 0 .. MaxCols
Next ==
  /\ \E i \in 1 .. Len(l) + 1 :
       /\ i <= MaxRows /\ At(l, i) < MaxCols /\ (IF i = 1 THEN TRUE ELSE At(l, i) < l[i - 1])
       /\ l' = [j \in 1 .. Max2(Len(l), i) |-> At(l, j) + (IF j = i THEN 1 ELSE 0)]
  /\ UNCHANGED k

D(m) == UNION { {<<r, c>> : c \in 1 .. m[r]} : r \in 1 .. Len(m) }
Transposed == D(Conj(l)) = {<<x[2], x[1]>> : x \in D(l)} /\ Conj(Conj(l)) = l
Counted == Size(l) = Cardinality(D(l)) /\ Size(Conj(l)) = Size(l)
Found == /\ IsPartition(l)
         /\ l \in PartitionsIn(MaxRows, MaxCols)
         /\ KStrict(l, k) = (l \in KStrictIn(k, MaxRows, MaxCols))
\* from the empty diagram: as many partitions as lattice paths
RECURSIVE Choose(_, _)
Choose(n, m) == IF m = 0 \/ m = n THEN 1 ELSE Choose(n - 1, m - 1) + Choose(n - 1, m)
Paths == l = <<>> =>
  /\ Cardinality(PartitionsIn(MaxRows, MaxCols)) = Choose(MaxRows + MaxCols, MaxRows)
  /\ k = 0 => Cardinality(KStrictIn(0, MaxCols, MaxCols)) = Pow2(MaxCols)
Inclusion == \A m \in PartitionsIn(MaxRows, MaxCols) :
  /\ Includes(l, m) = (D(m) \subseteq D(l))
  /\ Includes(l, m) = (m \in Below(l, MaxCols))
  /\ LET strip == Includes(l, m) /\ ~ \E x, y \in D(l) \ D(m) : x[2] = y[2] /\ x[1] # y[1]
     IN HorizontalStrip(m, l) = strip
ClipRoundTrip == \A z \in 0 .. 2 : Clip(l \o [i \in 1 .. z |-> 0]) = l
Drawn == /\ Len(DiagramLines(l, "#")) = Len(l)
         /\ Boxes(l) = {<<x[2] - 1, x[1] - 1>> : x \in D(l)}
         /\ SumLines(<<[c |-> "1", l |-> l]>>) # <<>>
Ordered == \A m \in PartitionsIn(MaxRows, MaxCols) :
  Cardinality({x \in {1, 2, 3} : (x = 1 /\ LexLess(l, m)) \/ (x = 2 /\ LexLess(m, l)) \/ (x = 3 /\ l = m)}) = 1
=============================================================================
