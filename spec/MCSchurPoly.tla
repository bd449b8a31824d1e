---------------------------- MODULE MCSchurPoly -----------------------------
(* Schur polynomials along the growth of the partition, one box per step.     *)
(* The branching rule agrees with the definition as a quotient of             *)
(* alternants: a_delta * s_l = a_(l + delta); s_l is symmetric, and its       *)
(* product with x_1 + ... + x_n is the sum over all ways to add a box.        *)
EXTENDS SchurPoly

CONSTANTS NVars, MaxSize

VARIABLE l
Init == l = <<>>

CanAdd(m, i) == i <= NVars /\ i <= Len(m) + 1 /\ (i = 1 \/ At(m, i) < At(m, i - 1))
AddBox(m, i) == [j \in 1 .. Max2(Len(m), i) |-> At(m, j) + (IF j = i THEN 1 ELSE 0)]
Corners(m) == {i \in 1 .. Len(m) + 1 : CanAdd(m, i)}
Next == Size(l) < MaxSize /\ \E i \in Corners(l) : l' = AddBox(l, i)

S(m) == SchurPolynomial(m, NVars)
Nonzero(f) == LET D == {x \in DOMAIN f : f[x] # 0} IN [x \in D |-> f[x]]
Neg(f) == [x \in DOMAIN f |-> -f[x]]
MulMono(f, e, c) == LET D == {[i \in 1 .. NVars |-> x[i] + e[i]] : x \in DOMAIN f}
                    IN [y \in D |-> c * f[[i \in 1 .. NVars |-> y[i] - e[i]]]]
Mul(f, g) == FoldSet(LAMBDA e, acc : AddF(acc, MulMono(f, e, g[e])), [x \in {} |-> 0], DOMAIN g)

Perms == {p \in [1 .. NVars -> 1 .. NVars] : Cardinality({p[i] : i \in 1 .. NVars}) = NVars}
Sign(p) == IF Cardinality({x \in (1 .. NVars) \X (1 .. NVars) : x[1] < x[2] /\ p[x[1]] > p[x[2]]}) % 2 = 0
           THEN 1 ELSE -1
\* alternant of the strictly decreasing exponents a
Alternant(a) == LET D == {[i \in 1 .. NVars |-> a[p[i]]] : p \in Perms}
                IN [y \in D |-> Sign(CHOOSE p \in Perms : y = [i \in 1 .. NVars |-> a[p[i]]])]
Delta == [i \in 1 .. NVars |-> NVars - i]

Bialternant == Nonzero(Mul(S(l), Alternant(Delta))) = Alternant([i \in 1 .. NVars |-> At(l, i) + NVars - i])
Symmetric == \A x \in DOMAIN S(l) : \A p \in Perms :
               LET y == [i \in 1 .. NVars |-> x[p[i]]] IN y \in DOMAIN S(l) /\ S(l)[y] = S(l)[x]
Degree == \A x \in DOMAIN S(l) : SumSeq(x) = Size(l) /\ S(l)[x] > 0
OneBox == Mul(S(l), S(<<1>>)) = FoldSet(LAMBDA i, acc : AddF(acc, S(AddBox(l, i))), [x \in {} |-> 0], Corners(l))
TooLong == Len(l) <= NVars => DOMAIN S(l) # {}
=============================================================================
