------------------------------ MODULE Program -------------------------------
(* Straight-line computations with the operations of a Grassmannian X: each   *)
(* instruction names earlier results and appends one, an element of the ring. *)
(* T.c and T.q are the multiplication tables.                                 *)
EXTENDS Expr

\* Instructions are records with fields o (operation), i, j (earlier results),
\* l (a label) and c (a number).
Ins(o, i, j, l, c) == [o |-> o, i |-> i, j |-> j, l |-> l, c |-> c]

OnLabels(F(_), f) == LinExt(LAMBDA l : ClassElem(F(l)), f)

Exec(X, T, regs, ins) ==
  LET f == IF ins.i = 0 THEN Zero ELSE regs[ins.i]
      g == IF ins.j = 0 THEN Zero ELSE regs[ins.j]
  IN CASE ins.o = "class" -> ClassElem(ins.l)
       [] ins.o = "sum" -> Add(f, g)
       [] ins.o = "diff" -> Sub(f, g)
       [] ins.o = "scale" -> Scale(ins.c, f)
       [] ins.o = "qscale" -> QShift([j \in 1 .. 3 |-> IF j = ins.c THEN 1 ELSE 0], f)
       \* products, through any of the ways the library offers
       [] ins.o \in {"mult", "giambelli-act", "toS-of-product"} -> MulElem(T.c, f, g)
       [] ins.o \in {"qmult", "qgiambelli-qact", "qtoS-of-product", "qmult_rh"} -> MulElem(T.q, f, g)
       [] ins.o = "toS-of-square" -> MulElem(T.c, f, f)
       [] ins.o = "qtoS-of-square" -> MulElem(T.q, f, f)
       [] ins.o = "pieri" -> LinExt(LAMBDA x : T.c[SpecialLabel(ins.c)][x], f)
       [] ins.o = "qpieri" -> LinExt(LAMBDA x : T.q[SpecialLabel(ins.c)][x], f)
       [] ins.o = "dual" -> OnLabels(LAMBDA l : Dual(X, l), f)
       [] ins.o = "swap" -> IF X.t = "D" THEN OnLabels(LAMBDA l : TypeSwap(l, X.k), f) ELSE f
       [] ins.o = "miami" -> IF X.t = "D" THEN OnLabels(LAMBDA l : MiamiSwap(l, X.k), f) ELSE f
       \* the classical part, as listed by the expansion without q
       [] ins.o = "classical" -> ClassicalPart(f)
       \* ways back and forth: the same element again
       [] ins.o \in {"index", "pairs", "toS", "qtoS", "expansion", "text", "clone"} -> f

\* all results of a program
Run(X, T, prog) == FoldLeft(LAMBDA regs, ins : Append(regs, TLCEval(Exec(X, T, regs, ins))), <<>>, prog)

\* the values stay small enough to be worth computing with
Tame(f) == /\ Cardinality(DOMAIN f) <= 24
           /\ \A t \in DOMAIN f : Abs(f[t]) <= 2000 /\ t[1][1] + t[1][2] + t[1][3] <= 4
=============================================================================
