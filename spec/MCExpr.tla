------------------------------- MODULE MCExpr -------------------------------
(* Expressions built step by step next to their value in the ring: each step  *)
(* adds, subtracts, multiplies or scales by a symbol or a quantum parameter.  *)
(* Evaluation of polynomials is a homomorphism into the ring.                 *)
EXTENDS Expr

CONSTANTS Type, K, N, Depth

X == Grass(Type, K, N)
T(qf) == TLCGet(IF qf THEN 2 ELSE 1)

VARIABLES f, val, tree, qf
vars == <<f, val, tree, qf>>

Init ==
  /\ TLCSet(1, MulTable(X, FALSE)) /\ TLCSet(2, MulTable(X, TRUE))
  /\ qf \in BOOLEAN
  /\ \E l \in Classes(X) : Codim(l) <= 1 /\ f = PSym(l) /\ val = ClassElem(l) /\ tree = [k |-> "S", l |-> l, d |-> 1]

D == tree.d
Node(k, a) == [k |-> k, a |-> a, d |-> D + 1]
Sym(l) == [k |-> "S", l |-> l, d |-> 1]

Times(l) == /\ f' = PMul(f, PSym(l)) /\ val' = MulElem(T(qf), val, ClassElem(l))
            /\ tree' = Node("mul", <<tree, Sym(l)>>)
Plus(l) == /\ f' = Add(f, PSym(l)) /\ val' = Add(val, ClassElem(l)) /\ tree' = Node("add", <<Sym(l), tree>>)
Minus(l) == /\ f' = Sub(PSym(l), f) /\ val' = Sub(ClassElem(l), val)
            /\ tree' = [k |-> "sub", x |-> Sym(l), y |-> tree, d |-> D + 1]
Number(c) == /\ f' = Add(f, PConst(c)) /\ val' = Add(val, Scale(c, One))
             /\ tree' = Node("add", <<tree, [k |-> "n", v |-> c, d |-> 1]>>)
Square == /\ f' = PPow(f, 2) /\ val' = MulElem(T(qf), val, val)
          /\ tree' = [k |-> "pow", x |-> tree, e |-> 2, d |-> D + 1]
Negate == f' = Scale(-1, f) /\ val' = Scale(-1, val) /\ tree' = [k |-> "neg", x |-> tree, d |-> D + 1]
Q(i) == /\ f' = PMul(f, PQ(i)) /\ val' = QShift([j \in 1 .. 3 |-> IF i = j THEN 1 ELSE 0], val)
        /\ tree' = Node("mul", <<[k |-> "q", i |-> i, d |-> 1], tree>>)

Next ==
  /\ D < Depth /\ UNCHANGED qf
  /\ \/ \E l \in Classes(X) : Times(l) \/ Plus(l) \/ Minus(l)
     \/ \E c \in {-1, 2} : Number(c)
     \/ Square \/ Negate \/ Q(1)

Homomorphism == RingEval(T(qf), f) = val
Linear == IsLinear(f) => ToElem(f) = val
NoZeros == \A t \in DOMAIN f : f[t] # 0 /\ \A l \in DOMAIN t[2] : t[2][l] > 0
TreeValue == EvalPoly(tree) = f
Special == (\A l \in LabelsIn(f) : IsSpecialLabel(X, l)) => PieriEvalOn(X, qf, f, One) = val
=============================================================================
