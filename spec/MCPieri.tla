------------------------------ MODULE MCPieri -------------------------------
(* The Pieri rules as a transition system: a state is a class of a            *)
(* Grassmannian X, and a step goes to a class occurring in its product with a *)
(* special class.  The invariants are what makes the rules a specification of *)
(* a ring: the operators commute, respect degrees and positivity, have the    *)
(* classical rule as their part without q, and reach every class in a         *)
(* triangular way (so that MulTable is well defined).  The enumeration of     *)
(* candidate shapes is compared with its definition.                          *)
EXTENDS Ring

CONSTANTS Types, MaxN, MaxClasses

Varieties ==
  {X \in [t : Types, k : 0 .. MaxN, n : 0 .. MaxN] :
     X.k <= X.n /\ Cardinality(Classes(X)) <= MaxClasses}

VARIABLES X, lab
vars == <<X, lab>>

Init == X \in Varieties /\ lab = <<>>

Next ==
  /\ \E p \in Specials(X) : \E t \in DOMAIN QPieriElem(X, p, lab) : lab' = t[2]
  /\ UNCHANGED X

P(qf, p, f) == LinExt(LAMBDA l : PieriOp(X, qf, p, l), f)

Class == IsClass(X, lab) /\ lab \in Classes(X)

Graded ==
  \A p \in Specials(X) :
    LET q == QPieriElem(X, p, lab)  c == PieriElem(X, p, lab) IN
    /\ Supported(X, q) /\ Positive(q) /\ Homogeneous(X, q, Codim(lab) + Abs(p))
    /\ ClassicalPart(q) = c

\* sigma_p * 1 = sigma_p
UnitLaw == lab = <<>> => \A p \in Specials(X) : QPieriElem(X, p, lab) = ClassElem(SpecialLabel(p))

Commute ==
  \A qf \in BOOLEAN : \A p, r \in Specials(X) :
     p < r => P(qf, p, PieriOp(X, qf, r, lab)) = P(qf, r, PieriOp(X, qf, p, lab))

\* every class but 1 is the leading term of a product with a smaller class
Triangular ==
  lab # <<>> =>
    LET p == FirstSpecial(X, lab)  r == Rest(X, lab)
        f == PieriElem(X, p, r)
    IN /\ IsClass(X, r) /\ Coef(f, <<Q0, lab>>) = 1
       /\ \A t \in DOMAIN f : t[2] # lab => LexGreater(t[2], lab)
       /\ \A t \in DOMAIN QPieriElem(X, p, r) : t[1] # Q0 => Codim(t[2]) < Codim(lab)

\* the enumeration of candidates finds exactly the shapes of the definition
Enumerated ==
  X.t # "A" =>
    \A d \in Codim(lab) .. Codim(lab) + X.n + X.k :
      StripShapes(Clip(lab), X.k, Rows(X), Cols(X), d)
        = {m \in PartitionsIn(Rows(X), Cols(X)) : Size(m) = d /\ StripShape(Clip(lab), m, X.k)}
=============================================================================
