------------------------------- MODULE QPieri -------------------------------
(* Classical and quantum Pieri rules as elements of the (quantum) cohomology  *)
(* ring, for all four families (Bertram; Kresch-Tamvakis;                     *)
(* Buch-Kresch-Tamvakis).  A ring element is a function from its support, a   *)
(* finite set of terms <<qd, lab>>, to nonzero integers; qd = <<a,b,c>>       *)
(* stands for q^a q1^b q2^c.                                                  *)
EXTENDS Index

Q0 == <<0, 0, 0>>
Q1 == <<1, 0, 0>>
Q2 == <<2, 0, 0>>
QMul(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>

\* Element from a set of tagged contributions [term, c, tag].
FromContribs(S) ==
  LET sup == {x.term : x \in S}
      tot == [t \in sup |-> LET P == {x \in S : x.term = t} IN
                 SumFun(P, [x \in P |-> x.c])]
      nz == {t \in sup : tot[t] # 0}
  IN [t \in nz |-> tot[t]]

PieriCoef(X, p, lab, mab) ==
  CASE X.t = "A" -> PieriCoefA(p, lab, mab)
    [] X.t = "C" -> PieriCoefC(p, lab, mab, X.k)
    [] X.t = "B" -> PieriCoefB(p, lab, mab, X.k)
    [] OTHER -> PieriCoefD(p, Typed(lab, X.k), Typed(mab, X.k), X.k)

\* Candidate classes of a Pieri product in the variety with data (k, n).
Candidates(X, p, lab) ==
  LET l == Clip(lab)
      d == Size(l) + Abs(p)
      kk == IF X.t = "A" THEN 0 ELSE X.k
      S == StripShapes(l, kk, Rows(X), Cols(X), d)
  IN UNION { Labels(X, m) : m \in {s \in S : X.t = "A" \/ KStrict(s, X.k)} }

\* Classical Pieri product as a function lab -> coefficient.
PieriMap(X, p, lab) ==
  LET C == Candidates(X, p, lab)
      f == [m \in C |-> PieriCoef(X, p, lab, m)]
  IN [m \in {m \in C : f[m] # 0} |-> f[m]]

Lift(map, qd) == [t \in {<<qd, m>> : m \in DOMAIN map} |-> map[t[2]]]

PieriElem(X, p, lab) == Lift(PieriMap(X, p, lab), Q0)

\* ---- quantum corrections --------------------------------------------------
Bigger(X) == [X EXCEPT !.n = X.n + 1]

\* contributions from a classical map, relabelled by F (a set of 0/1 labels)
Contribs(map, qd, tag, F(_)) ==
  UNION { { [term |-> <<qd, y>>, c |-> map[m], tag |-> <<tag, m>>] : y \in F(m) }
        : m \in DOMAIN map }

DropFirst(lab) == Tail(lab)
Same(lab) == {lab}

\* Type A (Bertram): remove a full column from lam ... (n - m)-hook form.
\* mu is obtained from the classical product in a wider rectangle by removing
\* an n-rim hook that occupies all rows: equivalently nu with
\* lam_1 - 1 >= nu_1 >= lam_2 - 1 >= ... >= lam_m - 1 >= nu_m >= 0 and
\* |nu| = |lam| + p - n.
QTermsA(X, p, l) ==
  LET m == Rows(X) IN
  IF Len(l) < m \/ m = 0 THEN {}
  ELSE { nu \in PartitionsIn(m, X.k) :
           /\ Size(nu) = Size(l) + p - X.n
           /\ \A i \in 1 .. m : At(nu, i) <= l[i] - 1
           /\ \A i \in 1 .. m - 1 : At(nu, i) >= l[i + 1] - 1 }

\* nu in P'(k, n+1): the shapes contributing to q^1 in types B and D.
TildeOK(X, l) ==
  LET rows == Rows(X) + 1 IN
  /\ Len(l) = rows
  /\ l[1] <= X.n + X.k
  /\ LET r == rows + l[1] - (X.n + X.k) IN
     r >= 1 /\ ColLen(l, 2) <= r
\* remove the first row, and n+k-nu_1 boxes from the first column
TildeOf(X, l) == LET r == Rows(X) + 1 + l[1] - (X.n + X.k) IN SubSeq(l, 2, r)

SwapType(X, lab) ==
  LET l == Clip(lab) IN
  IF ~ HasK(l, X.k) THEN l
  ELSE IF ClassType(lab, X.k) = 2 THEN l ELSE Append(l, 0)

QContribsA(X, p, lab) ==
  { [term |-> <<Q1, nu>>, c |-> 1, tag |-> <<1, nu>>] : nu \in QTermsA(X, p, lab) }

QContribsC(X, p, lab) ==
  LET big == PieriMap(Bigger(X), p, lab)
      S == {m \in DOMAIN big : m # <<>> /\ m[1] = X.n + X.k + 1}
  IN { [term |-> <<Q1, Tail(m)>>, c |-> big[m] \div 2, tag |-> <<1, m>>] : m \in S }

\* terms lam_1 = n+k: drop the first row, multiply, keep those with first part
\* n+k, drop it again
RowDrop(X, p, lab, qd, tag) ==
  IF lab = <<>> \/ lab[1] # X.n + X.k THEN {}
  ELSE LET mp == PieriMap(X, p, Tail(lab))
           S == {m \in DOMAIN mp : m # <<>> /\ m[1] = X.n + X.k}
       IN { [term |-> <<qd, Tail(m)>>, c |-> mp[m], tag |-> <<tag, m>>] : m \in S }

QContribsB(X, p, lab) ==
  IF X.k = 0 THEN RowDrop(X, p, lab, Q1, 1)
  ELSE LET q1 == IF Len(lab) < Rows(X) THEN {}
                 ELSE LET big == PieriMap(Bigger(X), p, lab)
                          S == {m \in DOMAIN big : TildeOK(X, m)}
                      IN { [term |-> <<Q1, TildeOf(X, m)>>, c |-> big[m], tag |-> <<1, m>>] : m \in S }
       IN q1 \cup RowDrop(X, p, lab, Q2, 2)

\* Type D, k >= 2: as type B; the type is kept by the shape map and then
\* exchanged.
QLabelD(X, m) ==
  LET l == TildeOf(X, Clip(m)) IN
  SwapType(X, IF HasK(l, X.k) /\ Len(m) > Len(Clip(m)) THEN Append(l, 0) ELSE l)

QContribsD2(X, p, lab, qd1, qd2) ==
  LET l == Clip(lab)
      q1 == IF Len(l) < Rows(X) THEN {}
            ELSE LET big == PieriMap(Bigger(X), p, lab)
                     S == {m \in DOMAIN big : TildeOK(X, Clip(m))}
                 IN { [term |-> <<qd1, QLabelD(X, m)>>, c |-> big[m], tag |-> <<1, m>>] : m \in S }
  IN q1 \cup RowDrop(X, p, lab, qd2, 2)

\* Type D, k = 1: two quantum parameters, one for each family of maximal
\* isotropic subspaces containing V.  The coefficient of q_i tau_mu in
\* tau_p * tau_lam is a classical Pieri coefficient of OG(n+1,2n+2): lam and the
\* dual of mu both have a full first column and a type admitting q_i; remove
\* those columns, and a box from tau_p.
MaxOG(X) == [X EXCEPT !.k = 0]
FirstColumnOff(l) == Clip([i \in 1 .. Len(l) |-> l[i] - 1])
Complement(l, n) == LET P == (1 .. n) \ ToSet(l)
                    IN SetToSortSeq(P, LAMBDA a, b : a > b)
\* all parts of c, padded to n rows, raised by one; type t when it has one
WithColumn(X, c, t) ==
  LET l == [i \in 1 .. X.n |-> At(c, i) + 1]
  IN IF HasK(l, 1) THEN LabelOf(l, t) ELSE l

QContribsD1For(X, p, lab, t, qd) ==
  LET l == Clip(lab)
      lb == FirstColumnOff(l)
      prod == IF Abs(p) = 1 THEN lb :> 1 ELSE PieriMap(MaxOG(X), Abs(p) - 1, lb)
  IN IF \/ Len(l) < X.n
        \/ ClassType(lab, 1) = 3 - t
        \/ Abs(p) = 1 /\ (IF p > 0 THEN 1 ELSE 2) # t
     THEN {}
     ELSE { [term |-> <<qd, Dual(X, WithColumn(X, Complement(m, X.n), t))>>,
             c |-> prod[m], tag |-> <<t, m>>] : m \in DOMAIN prod }

QContribsD1(X, p, lab) ==
  QContribsD1For(X, p, lab, 1, <<0, 1, 0>>)
    \cup QContribsD1For(X, p, lab, 2, <<0, 0, 1>>)
    \cup RowDrop(X, p, lab, <<0, 1, 1>>, 3)

QContribs(X, p, lab) ==
  CASE X.t = "A" -> QContribsA(X, p, lab)
    [] X.t = "C" -> QContribsC(X, p, lab)
    [] X.t = "B" -> QContribsB(X, p, lab)
    [] X.t = "D" /\ X.k = 0 -> RowDrop(X, p, lab, Q1, 1)
    [] X.t = "D" /\ X.k = 1 -> QContribsD1(X, p, lab)
    [] OTHER -> QContribsD2(X, p, lab, Q1, Q2)

QPieriElem(X, p, lab) ==
  LET cl == PieriMap(X, p, lab)
      C0 == { [term |-> <<Q0, m>>, c |-> cl[m], tag |-> <<0, m>>] : m \in DOMAIN cl }
  IN FromContribs(C0 \cup QContribs(X, p, lab))
=============================================================================
