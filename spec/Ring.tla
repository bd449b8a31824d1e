-------------------------------- MODULE Ring --------------------------------
(* The (quantum) cohomology ring of a Grassmannian X: ring elements, linear   *)
(* extension, and the multiplication table determined by the Pieri rule.      *)
(* The special classes generate the ring, so the table is the only family of  *)
(* linear operators T[lam] in the algebra generated by the Pieri operators    *)
(* with T[lam](1) = sigma_lam; MCRing checks the ring axioms on it.           *)
EXTENDS QPieri

Zero == [t \in {} |-> 0]
ClassElem(lab) == <<Q0, lab>> :> 1
One == ClassElem(<<>>)

Coef(f, t) == IF t \in DOMAIN f THEN f[t] ELSE 0
Trim(f) == LET nz == {t \in DOMAIN f : f[t] # 0}
           IN IF nz = DOMAIN f THEN f ELSE TLCEval([t \in nz |-> f[t]])

Add(f, g) ==
  IF DOMAIN f = {} THEN g ELSE IF DOMAIN g = {} THEN f
  ELSE Trim(TLCEval([t \in DOMAIN f \cup DOMAIN g |-> Coef(f, t) + Coef(g, t)]))
Scale(c, f) == IF c = 0 THEN Zero ELSE IF c = 1 THEN f ELSE TLCEval([t \in DOMAIN f |-> c * f[t]])
Sub(f, g) == Add(f, Scale(-1, g))
QShift(qd, f) ==
  IF qd = Q0 THEN f
  ELSE LET D == {<<QMul(qd, t[1]), t[2]>> : t \in DOMAIN f}
           back(s) == <<<<s[1][1] - qd[1], s[1][2] - qd[2], s[1][3] - qd[3]>>, s[2]>>
       IN TLCEval([s \in D |-> f[back(s)]])

\* Linear extension of F : label -> element, over the powers of q as scalars.
LinExt(F(_), f) ==
  FoldSet(LAMBDA t, acc : Add(acc, Scale(f[t], QShift(t[1], F(t[2])))), Zero, DOMAIN f)

ClassicalPart(f) == LET D == {t \in DOMAIN f : t[1] = Q0} IN [t \in D |-> f[t]]
Supported(X, f) == \A t \in DOMAIN f : IsClass(X, t[2])
Homogeneous(X, f, d) == \A t \in DOMAIN f : QDeg(X, t[1]) + Codim(t[2]) = d
Positive(f) == \A t \in DOMAIN f : f[t] > 0

\* Pieri operators on all classes; quantum iff qf.
PieriOp(X, qf, p, lab) == IF qf THEN QPieriElem(X, p, lab) ELSE PieriElem(X, p, lab)
PieriTable(X, qf) ==
  LET C == Classes(X)
  IN TLCEval([p \in Specials(X) |-> TLCEval([lab \in C |-> PieriOp(X, qf, p, lab)])])

\* sigma_lam = sigma_p * sigma_rest - (terms before lam in ClassOrder)
FirstSpecial(X, lab) ==
  IF X.t = "D" /\ Typed(lab, X.k)[2] = 2 /\ lab[1] = X.k THEN -X.k ELSE lab[1]
Rest(X, lab) ==
  LET r == Tail(Clip(lab)) IN
  IF X.t = "D" /\ ClassType(lab, X.k) = 2 /\ HasK(r, X.k) THEN Append(r, 0) ELSE r

RECURSIVE LexGreater(_, _)
LexGreater(a, b) ==
  IF a = <<>> THEN FALSE ELSE IF b = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) > Head(b)
  ELSE LexGreater(Tail(a), Tail(b))

\* by codimension, then lexicographically decreasing
ClassOrder(X) ==
  SetToSortSeq(Classes(X), LAMBDA a, b : \/ Codim(a) < Codim(b)
                                         \/ Codim(a) = Codim(b) /\ LexGreater(a, b))

MulTable(X, qf) ==
  LET C == Classes(X)
      P == PieriTable(X, qf)
      Row(lab, T) ==
        IF lab = <<>> THEN [m \in C |-> ClassElem(m)]
        ELSE LET p == FirstSpecial(X, lab)
                 rest == Rest(X, lab)
                 others == TLCEval(Sub(P[p][rest], ClassElem(lab)))
             IN [m \in C |->
                   Sub(LinExt(LAMBDA x : P[p][x], T[rest][m]),
                       LinExt(LAMBDA x : T[x][m], others))]
  IN FoldLeft(LAMBDA T, lab : TLCEval(T @@ (lab :> TLCEval(Row(lab, T)))), <<>>, ClassOrder(X))

\* Product of elements, given the table.
MulElem(T, f, g) == LinExt(LAMBDA a : LinExt(LAMBDA b : T[a][b], g), f)
RECURSIVE PowElem(_, _, _)
PowElem(T, f, e) == IF e = 0 THEN One ELSE MulElem(T, f, PowElem(T, f, e - 1))
=============================================================================
