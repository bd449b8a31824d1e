------------------------------- MODULE Index --------------------------------
(* Schubert symbols (index sets), Poincare duality, and the maps between      *)
(* partitions and index sets.  A Schubert variety is given by the jump        *)
(* positions P = {p_1 < ... < p_m} of dim(V meet F_p); isotropy forbids two   *)
(* positions adding up to N+1 (and, in odd orthogonal spaces, the middle).    *)
EXTENDS Variety

Admissible(X, P) ==
  /\ Cardinality(P) = M(X)
  /\ X.t # "A" => \A p \in P : (NN(X) + 1 - p) \notin P
  \* OG(n+1,2n+2) has two components; its symbols are those of the component
  \* of the reference flag
  /\ X.t = "D" /\ X.k = 0 => Cardinality((1 .. X.n + 1) \ P) % 2 = 0

IndexSets(X) == {P \in kSubset(M(X), 1 .. NN(X)) : Admissible(X, P)}

SortedSeq(P) == SetToSortSeq(P, LAMBDA a, b : a < b)

\* p is a weakly "late" position: it counts against the earlier ones when the
\* two together pass the middle.
Late(X, P, j) ==
  Cardinality({i \in 1 .. j - 1 : P[i] + P[j] > NN(X) + 1})

\* part lambda_j of an increasing index sequence
PartAt(X, P, j) ==
  CASE X.t = "A" -> X.k + j - P[j]
    [] X.t = "C" -> X.n + X.k + 1 - P[j] + Late(X, P, j)
    [] X.t = "B" -> IF P[j] <= X.n THEN X.n + X.k + 1 - P[j]
                    ELSE X.n + X.k + 2 - P[j] + Late(X, P, j)
    [] OTHER     -> IF P[j] <= X.n + 1 THEN X.n + X.k + 1 - P[j]
                    ELSE X.n + X.k + 2 - P[j] + Late(X, P, j)

\* In type D a class having a part k has type 2 iff an odd number of the first
\* n+1 positions is missing from P.
IndexToPart(X, P) ==
  LET l == Clip([j \in 1 .. Len(P) |-> PartAt(X, P, j)])
      missing == Cardinality((1 .. X.n + 1) \ ToSet(P))
  IN IF X.t = "D" /\ HasK(l, X.k) /\ missing % 2 = 1 THEN Append(l, 0) ELSE l

\* The inverse map, as a table over all index sets.
PartToIndexTable(X) ==
  LET Ps == {SortedSeq(P) : P \in IndexSets(X)}
  IN [lab \in {IndexToPart(X, P) : P \in Ps} |-> CHOOSE P \in Ps : IndexToPart(X, P) = lab]

\* The same inverse map in closed form (MCIndex: they agree).
PartToIndex(X, lab) ==
  LET l == Clip(lab)
      lam(j) == At(l, j)
      Cnt(j, s) == Cardinality({i \in 1 .. j - 1 : lam(i) + lam(j) <= 2 * X.k + s + j - i})
      t == IF X.k = 0 THEN 1 ELSE ClassType(lab, X.k)
  IN [j \in 1 .. M(X) |->
       CASE X.t = "A" -> X.k + j - lam(j)
         [] X.t = "C" -> X.n + X.k + 1 - lam(j) + Cnt(j, 0)
         [] X.t = "B" -> IF lam(j) > X.k THEN X.n + X.k + 1 - lam(j)
                         ELSE X.n + X.k + 2 - lam(j) + Cnt(j, 0)
         [] OTHER ->
              X.n + X.k - lam(j) + Cnt(j, -1)
              + (IF \/ lam(j) > X.k
                    \/ /\ lam(j) = X.k
                       /\ j = 1 \/ lam(j - 1) > X.k
                       /\ (X.n + j + t) % 2 = 0
                 THEN 1 ELSE 2) ]

\* Opposite Schubert variety; in D_{n+1} with n+1 odd the longest element
\* exchanges the two middle positions.
DualIndex(X, P) ==
  LET N == NN(X)  len == Len(P)
      R == [j \in 1 .. len |-> N + 1 - P[len + 1 - j]]
      h == N \div 2
  IN IF X.t = "D" /\ h % 2 = 1
     THEN SortedSeq({IF p = h THEN h + 1 ELSE IF p = h + 1 THEN h ELSE p : p \in ToSet(R)})
     ELSE R

Dual(X, lab) == IndexToPart(X, DualIndex(X, PartToIndex(X, lab)))

(* ---- partition pairs ---------------------------------------------------- *)
\* (top, bottom): the first k columns conjugated (k column lengths), and what
\* sticks out to the right of them; a trailing 0 of the label goes to bottom.
PairOf(lab, k) ==
  LET l == Clip(lab)
      top == [c \in 1 .. k |-> ColLen(l, c)]
      bot == Clip([i \in 1 .. Len(l) |-> Max2(l[i] - k, 0)])
  IN <<top, IF Len(lab) > Len(l) THEN Append(bot, 0) ELSE bot>>

PartOfPair(pair) ==
  LET top == pair[1]  bot == Clip(pair[2])
      left == Conj(Clip(top))
      l == [i \in 1 .. Max2(Len(left), Len(bot)) |-> At(left, i) + At(bot, i)]
  IN IF Len(pair[2]) > Len(bot) THEN Append(l, 0) ELSE l

(* ---- the two involutions on labels -------------------------------------- *)
\* (defined for every label, clipped when the type makes no sense)
TypeSwap(lab, k) ==
  LET l == Clip(lab) IN
  IF ~ HasK(l, k) THEN l ELSE IF Len(lab) > Len(l) THEN l ELSE Append(l, 0)

\* exchange the types when the number of parts > k is odd
MiamiSwap(lab, k) ==
  LET l == Clip(lab) IN
  IF HasK(l, k) /\ Cardinality({i \in 1 .. Len(l) : l[i] > k}) % 2 = 1
  THEN TypeSwap(lab, k) ELSE lab
=============================================================================
