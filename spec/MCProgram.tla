----------------------------- MODULE MCProgram ------------------------------
(* Random programs (tlc -simulate): each behaviour draws instructions until   *)
(* Depth results exist, and is printed for replay into the library.           *)
(* Exhaustively (Drawn = FALSE) for short programs on small varieties, with   *)
(* the invariants that tie the instructions together.                         *)
EXTENDS Program, Json

CONSTANTS Type, K, N, Depth, Drawn, Emit

X == Grass(Type, K, N)
T == TLCGet(1)

VARIABLES prog, regs
vars == <<prog, regs>>

Init ==
  /\ TLCSet(1, TLCEval([c |-> MulTable(X, FALSE), q |-> MulTable(X, TRUE)]))
  /\ prog = <<>> /\ regs = <<>>

Regs == 1 .. Len(regs)
QNames == IF X.t = "D" /\ X.k = 1 THEN {2, 3} ELSE {1}
Unary == {"dual", "swap", "miami", "classical", "index", "toS", "qtoS", "expansion", "text", "clone", "toS-of-square",
          "qtoS-of-square"} \cup (IF X.t = "A" THEN {} ELSE {"pairs"})
Binary == {"sum", "diff", "mult", "qmult", "giambelli-act", "qgiambelli-qact", "toS-of-product", "qtoS-of-product"}
            \cup (IF X.t = "A" THEN {"qmult_rh"} ELSE {})

\* qmult_rh is a product of elements without q
Able(ins) == ins.o = "qmult_rh" => \A t \in DOMAIN regs[ins.i] \cup DOMAIN regs[ins.j] : t[1] = Q0

Do(ins) ==
  /\ Able(ins)
  /\ LET f == TLCEval(Exec(X, T, regs, ins)) IN
     /\ Tame(f)
     /\ regs' = Append(regs, f) /\ prog' = Append(prog, ins)

AnyIns ==
  {Ins("class", 0, 0, l, 0) : l \in Classes(X)}
    \cup {Ins(o, i, 0, <<>>, 0) : o \in Unary, i \in Regs}
    \cup {Ins(o, i, j, <<>>, 0) : o \in Binary, i \in Regs, j \in Regs}
    \cup {Ins("scale", i, 0, <<>>, c) : i \in Regs, c \in {-1, 0, 3}}
    \cup {Ins("qscale", i, 0, <<>>, c) : i \in Regs, c \in QNames}
    \cup {Ins(o, i, 0, <<>>, p) : o \in {"pieri", "qpieri"}, i \in Regs, p \in Specials(X)}

\* recent results are used more often
Draw(n) == IF RandomElement(1 .. 3) = 1 THEN RandomElement(1 .. n) ELSE Max2(1, n - RandomElement(0 .. 2))
NewClass(n) == Ins("class", 0, 0, RandomElement(Classes(X)), n - n)
DrawnIns(kind) ==
  LET n == Len(regs)  i == Draw(n)  j == Draw(n) IN
  CASE kind <= 4 -> Ins(RandomElement(Binary), i, j, <<>>, 0)
    [] kind <= 7 -> Ins(RandomElement(Unary), i, 0, <<>>, 0)
    [] kind = 8 -> Ins("scale", i, 0, <<>>, RandomElement({-2, -1, 0, 2, 3, 7}))
    [] kind = 9 -> Ins("qscale", i, 0, <<>>, RandomElement(QNames))
    [] kind = 10 -> Ins(RandomElement({"sum", "diff"}), i, j, <<>>, 0)
    [] kind = 11 /\ Specials(X) # {} -> Ins(RandomElement({"pieri", "qpieri"}), i, 0, <<>>, RandomElement(Specials(X)))
    [] OTHER -> NewClass(n)

Random ==
  LET ins == IF Len(regs) < 2 THEN NewClass(Len(regs)) ELSE DrawnIns(RandomElement(1 .. 13))
  IN \E x \in {ins} :
       LET ok == Able(x) /\ Tame(TLCEval(Exec(X, T, regs, x)))
       IN IF ok THEN Do(x) ELSE \E y \in {NewClass(Len(regs))} : Do(y)

Next ==
  /\ Len(prog) < Depth
  /\ IF Drawn THEN Random ELSE \E ins \in AnyIns : Do(ins)

Inside == \A i \in Regs : Supported(X, regs[i]) /\ \A t \in DOMAIN regs[i] : regs[i][t] # 0
Rerun == Run(X, T, prog) = regs
\* duality exchanges products with the unit and the point; swapping types is an automorphism up to exchanging q1, q2
SwapQ(f) == LET D == {<<<<t[1][1], t[1][3], t[1][2]>>, t[2]>> : t \in DOMAIN f}
            IN [t \in D |-> f[<<<<t[1][1], t[1][3], t[1][2]>>, t[2]>>]]
Sw(f) == IF X.t = "D" THEN SwapQ(OnLabels(LAMBDA l : TypeSwap(l, X.k), f)) ELSE f
Automorphism ==
  \A i, j \in Regs : MulElem(T.q, Sw(regs[i]), Sw(regs[j])) = Sw(MulElem(T.q, regs[i], regs[j]))
Emitted == (Emit /\ Len(prog) = Depth) => PrintT("@@B " \o ToJson(prog))
=============================================================================
