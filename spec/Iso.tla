-------------------------------- MODULE Iso ---------------------------------
(* Isomorphisms between Grassmannians, as maps of their (quantum) cohomology  *)
(* rings.  Partner(kind, X) is the other Grassmannian; IsoImage the image of  *)
(* an element.  The classical ring of IG(m,2n) embeds rationally: classes are *)
(* scaled by powers of two.                                                   *)
EXTENDS Expr

IsoKinds(X) ==
  (IF X.t = "A" THEN {"conjugate"} ELSE {})
    \cup (IF X.t = "B" /\ X.k = 0 /\ X.n > 0 THEN {"maximal"} ELSE {})
    \cup (IF X.t = "C" /\ X.k = X.n - 1 THEN {"projective"} ELSE {})
    \cup (IF X.t = "C" THEN {"scaling"} ELSE {})
    \cup (IF X.t = "D" THEN {"swap"} ELSE {})
    \cup (IF X \in {Grass("C", 0, 2), Grass("B", 0, 2), Grass("D", 2, 2), Grass("D", 0, 3)} THEN {"exceptional"} ELSE {})
Quantum(kind) == kind # "scaling"

Partner(kind, X) ==
  CASE kind = "conjugate" -> Grass("A", X.n - X.k, X.n)
    [] kind = "maximal" -> Grass("D", 0, X.n)
    [] kind = "projective" -> Grass("A", 2 * X.n - 1, 2 * X.n)
    [] kind = "scaling" -> Grass("B", X.k, X.n)
    [] kind = "swap" -> X
    [] X.t = "C" -> Grass("B", 1, 2)          \* LG(2,4) = the quadric OG(1,5)
    [] X.t = "B" -> Grass("A", 3, 4)          \* OG(2,5) = Gr(1,4)
    [] X.k = 2 -> Grass("A", 2, 4)            \* the quadric OG(1,6) = Gr(2,4)
    [] OTHER -> Grass("D", 3, 3)              \* OG(4,8) = OG(1,8), by triality

\* the classes in corresponding order
Matched(X) ==
  CASE X.t = "C" -> << <<<<>>, <<>>>>, <<<<1>>, <<1>>>>, <<<<2>>, <<2>>>>, <<<<2, 1>>, <<3>>>> >>
    [] X.t = "B" -> << <<<<>>, <<>>>>, <<<<1>>, <<1>>>>, <<<<2>>, <<2>>>>, <<<<2, 1>>, <<3>>>> >>
    [] X.k = 2 -> << <<<<>>, <<>>>>, <<<<1>>, <<1>>>>, <<<<2>>, <<2>>>>, <<<<2, 0>>, <<1, 1>>>>,
                     <<<<3>>, <<2, 1>>>>, <<<<4>>, <<2, 2>>>> >>
    [] OTHER -> << <<<<>>, <<>>>>, <<<<1>>, <<1>>>>, <<<<2>>, <<2>>>>, <<<<3>>, <<3>>>>, <<<<2, 1>>, <<3, 0>>>>,
                   <<<<3, 1>>, <<4>>>>, <<<<3, 2>>, <<5>>>>, <<<<3, 2, 1>>, <<6>>>> >>

IsoLabel(kind, X, l) ==
  CASE kind = "conjugate" -> Conj(l)
    [] kind = "swap" -> TypeSwap(l, X.k)
    [] kind = "exceptional" -> (CHOOSE p \in ToSet(Matched(X)) : p[1] = l)[2]
    [] OTHER -> l

LongParts(l, k) == Cardinality({i \in 1 .. Len(l) : l[i] > k})
IsoFactor(kind, X, l) == IF kind = "scaling" THEN 2 ^ LongParts(l, X.k) ELSE 1
IsoQ(kind, qd) == IF kind = "swap" THEN <<qd[1], qd[3], qd[2]>> ELSE qd

IsoImage(kind, X, f) ==
  FoldSet(LAMBDA t, acc : Add(acc, Scale(f[t] * IsoFactor(kind, X, t[2]),
                                         QShift(IsoQ(kind, t[1]), ClassElem(IsoLabel(kind, X, t[2]))))), Zero, DOMAIN f)
=============================================================================
