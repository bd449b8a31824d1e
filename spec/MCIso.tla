------------------------------- MODULE MCIso --------------------------------
(* Pairs of isomorphic Grassmannians: the states are pairs of classes, reached *)
(* by multiplying with special classes.                                        *)
EXTENDS Iso

CONSTANTS Types, MaxN, MaxClasses

Varieties ==
  {Y \in [t : Types, k : 0 .. MaxN, n : 0 .. MaxN] :
     Y.k <= Y.n /\ IsoKinds(Y) # {} /\ Cardinality(Classes(Y)) <= MaxClasses}
Pairs == UNION {{<<Y, kind>> : kind \in IsoKinds(Y)} : Y \in Varieties}
All == Varieties \cup {Partner(p[2], p[1]) : p \in Pairs}
MkTables == TLCEval([Y \in All |-> TLCEval([c |-> MulTable(Y, FALSE), q |-> MulTable(Y, TRUE)])])
Tables == TLCGet(1)

VARIABLES X, kind, a, b
vars == <<X, kind, a, b>>

Init == /\ TLCSet(1, MkTables)
        /\ \E p \in Pairs : X = p[1] /\ kind = p[2]
        /\ a = <<>> /\ b = <<>>
Next ==
  /\ UNCHANGED <<X, kind>>
  /\ \E p \in Specials(X) :
       \/ b' = b /\ \E t \in DOMAIN Tables[X].q[SpecialLabel(p)][a] : a' = t[2]
       \/ a' = a /\ \E t \in DOMAIN Tables[X].q[SpecialLabel(p)][b] : b' = t[2]

Y == Partner(kind, X)
Image(f) == IsoImage(kind, X, f)

\* the images of the classes are the classes of the partner
Bijective == LET D == {IsoLabel(kind, X, l) : l \in Classes(X)}
             IN D = Classes(Y) /\ Cardinality(D) = Cardinality(Classes(X))
Degrees == Codim(IsoLabel(kind, X, a)) = Codim(a) /\ Dim(X) = Dim(Y) /\ (Quantum(kind) => DegQ(X) = DegQ(Y))
Homomorphism ==
  \A qf \in (IF Quantum(kind) THEN BOOLEAN ELSE {FALSE}) :
    LET tx == IF qf THEN Tables[X].q ELSE Tables[X].c
        ty == IF qf THEN Tables[Y].q ELSE Tables[Y].c
    IN MulElem(ty, Image(ClassElem(a)), Image(ClassElem(b))) = Image(tx[a][b])
\* the dual classes correspond (up to scaling)
Duals == IsoLabel(kind, X, Dual(X, a)) = Dual(Y, IsoLabel(kind, X, a))
=============================================================================
