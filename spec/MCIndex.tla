------------------------------ MODULE MCIndex -------------------------------
(* Schubert symbols as a transition system: a state is an index sequence of a *)
(* Grassmannian X, and a step applies a simple reflection of the Weyl group   *)
(* of X to it.  The codimension is the length function: a reflection that     *)
(* moves the symbol changes it by exactly one, and every symbol is reached    *)
(* from the open cell by descending steps.  On every state the maps between   *)
(* labels, symbols and partition pairs, duality and the involutions on labels *)
(* are compared with their defining properties.                               *)
EXTENDS Index

CONSTANTS Types, MaxN, MaxClasses

Varieties ==
  {Y \in [t : Types, k : 0 .. MaxN, n : 0 .. MaxN] :
     Y.k <= Y.n /\ Cardinality(Classes(Y)) <= MaxClasses}

VARIABLES X, P
vars == <<X, P>>

Init == X \in Varieties /\ P = PartToIndex(X, <<>>)

Swap(S, i, j) == {IF p = i THEN j ELSE IF p = j THEN i ELSE p : p \in S}

\* The simple reflections, numbered.
Reflections ==
  CASE X.t = "A" -> 1 .. X.n - 1
    [] X.t \in {"B", "C"} -> 1 .. X.n
    [] OTHER -> IF X.n = 0 THEN {} ELSE 1 .. X.n + 1
Reflect(S, i) ==
  LET N == NN(X)  h == N \div 2 IN
  CASE X.t = "A" -> Swap(S, i, i + 1)
    [] X.t = "C" -> IF i = X.n THEN Swap(S, i, i + 1) ELSE Swap(Swap(S, i, i + 1), N - i, N + 1 - i)
    [] X.t = "B" -> IF i = X.n THEN Swap(S, i, i + 2) ELSE Swap(Swap(S, i, i + 1), N - i, N + 1 - i)
    [] OTHER -> IF i = h THEN Swap(Swap(S, h - 1, h + 1), h, h + 2)
                ELSE Swap(Swap(S, i, i + 1), N - i, N + 1 - i)

Image(i) == SortedSeq(Reflect(ToSet(P), i))

\* OG(n+1,2n+2): the reflections of D_{n+1} keep the component
Next == \E i \in Reflections : P' = Image(i) /\ UNCHANGED X

Lab == IndexToPart(X, P)
LabelOfIndex(Q) == IndexToPart(X, Q)

IsSymbol == Admissible(X, ToSet(P)) /\ ToSet(P) \subseteq 1 .. NN(X) /\ SortedSeq(ToSet(P)) = P
IsLabel == IsClass(X, Lab)
BackAndForth == PartToIndex(X, Lab) = P

\* length function
Length ==
  /\ \A i \in Reflections : Image(i) # P => Abs(Codim(LabelOfIndex(Image(i))) - Codim(Lab)) = 1
  /\ Codim(Lab) > 0 => \E i \in Reflections : Codim(LabelOfIndex(Image(i))) < Codim(Lab)
  /\ Codim(Lab) < Dim(X) => \E i \in Reflections : Codim(LabelOfIndex(Image(i))) > Codim(Lab)

\* in the initial states: as many symbols as classes
Counted == Codim(Lab) = 0 =>
  /\ Cardinality(IndexSets(X)) = Cardinality(Classes(X))
  /\ {IndexToPart(X, SortedSeq(S)) : S \in IndexSets(X)} = Classes(X)

Duality ==
  /\ IsClass(X, Dual(X, Lab))
  /\ Codim(Dual(X, Lab)) = Dim(X) - Codim(Lab)
  /\ Dual(X, Dual(X, Lab)) = Lab

\* codimension one steps are reversed by duality
DualReverses ==
  \A i \in Reflections :
     Codim(Dual(X, LabelOfIndex(Image(i)))) - Codim(Dual(X, Lab)) = Codim(Lab) - Codim(LabelOfIndex(Image(i)))

Pairs == X.t # "A" => LET pr == PairOf(Lab, X.k) IN
  /\ PartOfPair(pr) = Lab
  /\ Len(pr[1]) = X.k
  /\ IsWeakPartition(pr[1])
  /\ LET bot == Clip(pr[2]) IN \A j \in 1 .. Len(bot) - 1 : bot[j] > bot[j + 1]
  /\ X.k > 0 => At(pr[1], X.k) >= Len(Clip(pr[2]))
  /\ SumSeq(pr[1]) + SumSeq(pr[2]) = Codim(Lab)

Involutions == X.t = "D" =>
  /\ IsClass(X, TypeSwap(Lab, X.k)) /\ TypeSwap(TypeSwap(Lab, X.k), X.k) = Lab
  /\ IsClass(X, MiamiSwap(Lab, X.k)) /\ MiamiSwap(MiamiSwap(Lab, X.k), X.k) = Lab
  /\ Clip(TypeSwap(Lab, X.k)) = Clip(Lab)
  /\ ClassType(Lab, X.k) + ClassType(TypeSwap(Lab, X.k), X.k) = (IF HasK(Clip(Lab), X.k) THEN 3 ELSE 0)
  /\ Labels(X, Clip(Lab)) = {Lab, TypeSwap(Lab, X.k)}

\* the descriptions of the variety
Described ==
  /\ FromArgs(Family(X), M(X), NN(X)) = X
  /\ ValidArgs(Family(X), M(X), NN(X))
  /\ Codim(Lab) = 0 => PointLabel(X) \in Classes(X)
  /\ \A p \in Specials(X) : IsClass(X, SpecialLabel(p)) /\ SpecialNo(SpecialLabel(p)) = p
  /\ ToSet(GeneratorSeq(X)) = {SpecialLabel(p) : p \in Specials(X)}
  /\ Len(GeneratorSeq(X)) = Cardinality(Specials(X))
=============================================================================
