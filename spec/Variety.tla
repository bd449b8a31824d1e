------------------------------ MODULE Variety ------------------------------
(* The Grassmannians, their Schubert classes, special classes and gradings.   *)
(* A Grassmannian is a record [t, k, n] with t \in {"A","B","C","D"}:         *)
(*   A: Gr(n-k,n)   B: OG(n-k,2n+1)   C: IG(n-k,2n)   D: OG(n+1-k,2n+2)       *)
(* A Schubert class is labelled by a sequence: the parts of its partition,    *)
(* followed in type D by one 0 iff the class has type 2.                      *)
EXTENDS Pieri

Grass(t, k, n) == [t |-> t, k |-> k, n |-> n]

\* From the constructor arguments of the three families.
FromArgs(fam, m, N) ==
  CASE fam = "Gr" -> Grass("A", N - m, N)
    [] fam = "IG" -> Grass("C", N \div 2 - m, N \div 2)
    [] fam = "OG" /\ N % 2 = 1 -> Grass("B", (N - 1) \div 2 - m, (N - 1) \div 2)
    [] OTHER -> Grass("D", N \div 2 - m, N \div 2 - 1)

\* Which constructor arguments denote a Grassmannian.
ValidArgs(fam, m, N) ==
  /\ m >= 0 /\ N >= 0
  /\ CASE fam = "Gr" -> m <= N
       [] fam = "IG" -> N % 2 = 0 /\ 2 * m <= N
       [] OTHER -> 2 * m <= N /\ (N % 2 = 0 => m >= 1)      \* 0 <= k <= n

M(X)    == IF X.t = "D" THEN X.n + 1 - X.k ELSE X.n - X.k   \* subspace dimension
Rows(X) == M(X)
Cols(X) == IF X.t = "A" THEN X.k ELSE X.n + X.k
NN(X)   == CASE X.t = "A" -> X.n [] X.t = "B" -> 2 * X.n + 1
             [] X.t = "C" -> 2 * X.n [] OTHER -> 2 * X.n + 2
Family(X) == CASE X.t = "A" -> "Gr" [] X.t = "C" -> "IG" [] OTHER -> "OG"
DegQ(X) == CASE X.t = "A" -> X.n
             [] X.t = "C" -> X.n + 1 + X.k
             [] OTHER -> IF X.k = 0 THEN 2 * X.n ELSE X.n + X.k

Dim(X) == LET m == M(X) IN
  CASE X.t = "A" -> m * X.k
    [] X.t = "C" -> 2 * m * (X.n - m) + (m * (m + 1)) \div 2
    [] X.t = "B" -> m * (2 * (X.n - m) + 1) + (m * (m - 1)) \div 2
    [] OTHER     -> m * (2 * X.n + 2 - 2 * m) + (m * (m - 1)) \div 2

Shapes(X) == IF X.t = "A" THEN PartitionsIn(Rows(X), Cols(X))
             ELSE KStrictIn(X.k, Rows(X), Cols(X))

HasK(l, k) == k > 0 /\ \E i \in 1 .. Len(l) : l[i] = k

\* Typed partitions <-> labels (type D).
ClassType(lab, k) == LET l == Clip(lab) IN
  IF ~ HasK(l, k) THEN 0 ELSE IF Len(lab) > Len(l) THEN 2 ELSE 1
Typed(lab, k) == <<Clip(lab), ClassType(lab, k)>>
LabelOf(l, t) == IF t = 2 THEN Append(l, 0) ELSE l

Labels(X, l) == IF X.t = "D" /\ HasK(l, X.k) THEN {l, Append(l, 0)} ELSE {l}
Classes(X) == UNION { Labels(X, l) : l \in Shapes(X) }

\* Class membership without enumerating.
IsClass(X, lab) ==
  LET l == Clip(lab) IN
  /\ IsPartition(l) /\ InBox(l, Rows(X), Cols(X))
  /\ X.t # "A" => KStrict(l, X.k)
  /\ lab \in Labels(X, l)

Codim(lab) == Size(lab)

\* Special classes are numbered p; -k is the type-2 class of codimension k.
Specials(X) ==
  CASE X.t = "A" -> IF Rows(X) = 0 THEN {} ELSE 1 .. X.k
    [] X.t \in {"B", "C"} -> IF Rows(X) = 0 THEN {} ELSE 1 .. (X.n + X.k)
    [] OTHER -> IF Rows(X) = 0 THEN {} ELSE (1 .. (X.n + X.k)) \cup (IF X.k > 0 THEN {-X.k} ELSE {})
SpecialLabel(p) == IF p > 0 THEN <<p>> ELSE <<-p, 0>>
IsSpecialLabel(X, lab) == \E p \in Specials(X) : SpecialLabel(p) = lab
SpecialNo(lab) == IF Len(lab) = 2 THEN -lab[1] ELSE lab[1]

\* The order in which the generators are listed.
GeneratorSeq(X) ==
  IF Specials(X) = {} THEN <<>>
  ELSE IF X.t = "D" /\ X.k > 0
       THEN [i \in 1 .. X.k |-> <<i>>] \o <<<<X.k, 0>>>>
            \o [i \in 1 .. X.n |-> <<X.k + i>>]
       ELSE [i \in 1 .. Cols(X) |-> <<i>>]

PointLabel(X) == IF Dim(X) = 0 THEN <<>>
                 ELSE CHOOSE lab \in Classes(X) : Codim(lab) = Dim(X)

\* Degrees of the quantum parameters <<q, q1, q2>>.
QDeg(X, qd) == DegQ(X) * (qd[1] + qd[2] + qd[3])
=============================================================================
