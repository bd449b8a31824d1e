------------------------------- MODULE MCRing -------------------------------
(* Products of classes as a transition system: a state is a pair of classes   *)
(* of X; a step multiplies one of them by a special class and moves to a      *)
(* class that occurs.  The invariants are the ring axioms for the             *)
(* multiplication table, its grading and positivity, Poincare duality, the    *)
(* symmetry of the (quantum) structure constants, and in type A the agreement *)
(* with the rim-hook theorem.                                                 *)
EXTENDS Expr, LR

CONSTANTS Types, MaxN, MaxClasses

Varieties ==
  {Y \in [t : Types, k : 0 .. MaxN, n : 0 .. MaxN] :
     Y.k <= Y.n /\ Cardinality(Classes(Y)) <= MaxClasses}

\* constants of the run, kept in registers so as to be computed once (one worker)
MkTables == TLCEval([Y \in Varieties |-> TLCEval([c |-> MulTable(Y, FALSE), q |-> MulTable(Y, TRUE)])])
Wide(Y) == Grass("A", 2 * Y.k, Rows(Y) + 2 * Y.k)
MkWideColumns ==
  TLCEval([Y \in {Z \in Varieties : Z.t = "A" /\ Rows(Z) > 0 /\ Z.k > 0} |->
             TLCEval([l \in Classes(Y) |-> Column(Wide(Y), FALSE, l, Dim(Y))])])

Tables == TLCGet(1)
WideColumns == TLCGet(2)

VARIABLES X, a, b
vars == <<X, a, b>>

Init == /\ TLCSet(1, MkTables) /\ TLCSet(2, MkWideColumns)
        /\ X \in Varieties /\ a = <<>> /\ b = <<>>

Next ==
  /\ UNCHANGED X
  /\ \E p \in Specials(X) :
       \/ b' = b /\ \E t \in DOMAIN Tables[X].q[SpecialLabel(p)][a] : a' = t[2]
       \/ a' = a /\ \E t \in DOMAIN Tables[X].q[SpecialLabel(p)][b] : b' = t[2]

T(qf) == IF qf THEN Tables[X].q ELSE Tables[X].c

Unit == \A qf \in BOOLEAN : T(qf)[<<>>][a] = ClassElem(a)
Commutative == \A qf \in BOOLEAN : T(qf)[a][b] = T(qf)[b][a]
Associative ==
  \A qf \in BOOLEAN : \A c \in Classes(X) :
     LinExt(LAMBDA x : T(qf)[x][c], T(qf)[a][b]) = LinExt(LAMBDA x : T(qf)[a][x], T(qf)[b][c])
Graded ==
  \A qf \in BOOLEAN : LET f == T(qf)[a][b] IN
     Supported(X, f) /\ Positive(f) /\ Homogeneous(X, f, Codim(a) + Codim(b))
ClassicalLimit == T(FALSE)[a][b] = ClassicalPart(T(TRUE)[a][b])
PieriAgrees ==
  \A qf \in BOOLEAN : IsSpecialLabel(X, a) => T(qf)[a][b] = PieriOp(X, qf, SpecialNo(a), b)

\* a . b = [pt] if b is dual to a, and 0 otherwise (complementary codimension)
Pairing ==
  Codim(a) + Codim(b) = Dim(X) =>
     T(FALSE)[a][b] = IF b = Dual(X, a) THEN ClassElem(PointLabel(X)) ELSE Zero

\* <a, b, c>_d is symmetric in the three classes
Structure(f, qd, c) == Coef(f, <<qd, Dual(X, c)>>)
Symmetric ==
  \A c \in Classes(X) :
    LET f == T(TRUE)[a][b]  g == T(TRUE)[a][c] IN
    \A qd \in {t[1] : t \in DOMAIN f} \cup {t[1] : t \in DOMAIN g} :
       Structure(f, qd, c) = Structure(g, qd, b)

\* type A: the quantum product is the reduction of the product in a variety
\* with the same number of rows and room for every partition
RimHookTheorem ==
  X \in DOMAIN WideColumns =>
    LET f == WideColumns[X][b][a]
        image(t) == LET h == RimReduce(t[2], Rows(X), X.k)
                    IN IF h.c = 0 THEN Zero ELSE <<<<h.d, 0, 0>>, h.part>> :> h.c
    IN T(TRUE)[a][b] =
         FoldSet(LAMBDA t, acc : Add(acc, Scale(f[t], image(t))), Zero, DOMAIN f)

\* type A: the Littlewood-Richardson rule, classical and with rim hooks
LittlewoodRichardson ==
  X.t = "A" /\ Rows(X) > 0 => \A qf \in BOOLEAN : T(qf)[a][b] = LRClasses(X, qf, a, b)
=============================================================================
