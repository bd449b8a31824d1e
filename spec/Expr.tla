-------------------------------- MODULE Expr --------------------------------
(* Expressions in Schubert symbols: the free commutative algebra over         *)
(* Z[q,q1,q2] on symbols S[label], and its evaluation in the cohomology ring. *)
(* A polynomial is a function from its support, a set of terms <<qd, mono>>,  *)
(* to nonzero integers; mono maps each symbol to a positive exponent.         *)
(* Rational coefficients are handled by a common denominator kept beside the  *)
(* polynomial.                                                                *)
EXTENDS Ring

MonoOne == <<>>
MonoMul(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE TLCEval([l \in DOMAIN a \cup DOMAIN b |->
                  (IF l \in DOMAIN a THEN a[l] ELSE 0) + (IF l \in DOMAIN b THEN b[l] ELSE 0)])
MonoDegree(a) == SumFun(DOMAIN a, a)

PConst(c) == IF c = 0 THEN Zero ELSE (<<Q0, MonoOne>> :> c)
PQ(i) == <<[j \in 1 .. 3 |-> IF j = i THEN 1 ELSE 0], MonoOne>> :> 1
PSym(lab) == <<Q0, lab :> 1>> :> 1

TermMul(s, t) == <<QMul(s[1], t[1]), MonoMul(s[2], t[2])>>
PMulTerm(f, t, c) ==
  FoldSet(LAMBDA s, acc : Add(acc, TermMul(s, t) :> (c * f[s])), Zero, DOMAIN f)
PMul(f, g) == FoldSet(LAMBDA t, acc : Add(acc, PMulTerm(f, t, g[t])), Zero, DOMAIN g)
RECURSIVE PPow(_, _)
PPow(f, e) == IF e = 0 THEN PConst(1) ELSE PMul(f, PPow(f, e - 1))

\* Syntax trees: [k |-> "S", l], [k |-> "n", v], [k |-> "q", i],
\* [k |-> "add"|"mul", a |-> seq], [k |-> "neg", x], [k |-> "sub", x, y],
\* [k |-> "pow", x, e].
RECURSIVE EvalPoly(_)
EvalPoly(e) ==
  CASE e.k = "S" -> PSym(e.l)
    [] e.k = "n" -> PConst(e.v)
    [] e.k = "q" -> PQ(e.i)
    [] e.k = "add" -> FoldLeft(LAMBDA acc, x : Add(acc, EvalPoly(x)), Zero, e.a)
    [] e.k = "mul" -> FoldLeft(LAMBDA acc, x : PMul(acc, EvalPoly(x)), PConst(1), e.a)
    [] e.k = "neg" -> Scale(-1, EvalPoly(e.x))
    [] e.k = "sub" -> Sub(EvalPoly(e.x), EvalPoly(e.y))
    [] e.k = "pow" -> PPow(EvalPoly(e.x), e.e)

\* Linear polynomials <-> ring elements.
IsLinearMono(m) == Cardinality(DOMAIN m) = 1 /\ \A l \in DOMAIN m : m[l] = 1
IsLinear(f) == \A t \in DOMAIN f : IsLinearMono(t[2])
TheLabel(m) == CHOOSE l \in DOMAIN m : TRUE
ToElem(f) == LET D == {<<t[1], TheLabel(t[2])>> : t \in DOMAIN f}
             IN TLCEval([t \in D |-> f[<<t[1], t[2] :> 1>>]])
LabelsIn(f) == UNION {DOMAIN t[2] : t \in DOMAIN f}

\* Evaluation in the ring, with product(a, b) on labels.
MonoEval(T, m, start) ==
  LET Labs == DOMAIN m
      step(l, acc) == FoldLeft(LAMBDA a, i : LinExt(LAMBDA x : T[l][x], a), acc,
                               [i \in 1 .. m[l] |-> i])
  IN FoldSet(step, start, Labs)
RingEvalOn(T, f, start) ==
  FoldSet(LAMBDA t, acc : Add(acc, Scale(f[t], QShift(t[1], MonoEval(T, t[2], start)))), Zero, DOMAIN f)
RingEval(T, f) == RingEvalOn(T, f, One)

\* Evaluation of a polynomial in special classes by Pieri operators alone.
PieriMonoEval(X, qf, m, start) ==
  FoldSet(LAMBDA l, acc : FoldLeft(LAMBDA a, i : LinExt(LAMBDA x : PieriOp(X, qf, SpecialNo(l), x), a),
                                   acc, [i \in 1 .. m[l] |-> i]),
          start, DOMAIN m)
PieriEvalOn(X, qf, f, start) ==
  FoldSet(LAMBDA t, acc : Add(acc, Scale(f[t], QShift(t[1], PieriMonoEval(X, qf, t[2], start)))),
          Zero, DOMAIN f)

\* One column T[.][m] of the multiplication table, for classes of codimension
\* at most maxd, computed from the Pieri rule on demand.
ClassOrderUpTo(X, maxd) ==
  SetToSortSeq({l \in Classes(X) : Codim(l) <= maxd},
               LAMBDA a, b : \/ Codim(a) < Codim(b)
                             \/ Codim(a) = Codim(b) /\ LexGreater(a, b))
Column(X, qf, m, maxd) ==
  LET Entry(lab, col) ==
        IF lab = <<>> THEN ClassElem(m)
        ELSE LET p == FirstSpecial(X, lab)
                 rest == Rest(X, lab)
                 others == TLCEval(Sub(PieriOp(X, qf, p, rest), ClassElem(lab)))
             IN Sub(LinExt(LAMBDA x : PieriOp(X, qf, p, x), col[rest]),
                    LinExt(LAMBDA x : col[x], others))
  IN FoldLeft(LAMBDA col, lab : TLCEval(col @@ (lab :> TLCEval(Entry(lab, col)))),
              <<>>, ClassOrderUpTo(X, maxd))
=============================================================================
