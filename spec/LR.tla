--------------------------------- MODULE LR ---------------------------------
(* The Littlewood-Richardson rule: an oracle for products on ordinary         *)
(* Grassmannians that is independent of the Pieri rule and of any table.      *)
(* A tableau of shape nu/l and content m is built letter by letter; the boxes *)
(* holding i form a horizontal strip, described by their number in each row.  *)
(* Its reverse reading word is a lattice word iff no row may be reached with  *)
(* more letters i than letters i - 1 strictly above.                          *)
EXTENDS Ring, RimHook

UpTo(a, j) == SumSeq(SubSeq(a, 1, j))

\* all ways of putting left boxes into the rows j, j + 1, ... of shape, at
\* most cols wide; prev is <<>> for the first letter
RECURSIVE Strips(_, _, _, _, _, _)
Strips(shape, prev, cols, j, put, left) ==
  IF j > Len(shape) THEN (IF left = 0 THEN {<<>>} ELSE {})
  ELSE LET above == IF j = 1 THEN cols ELSE shape[j - 1]
           room == Min2(left, above - shape[j])
           lim == IF prev = <<>> THEN room ELSE Min2(room, UpTo(prev, j - 1) - put)
       IN UNION { { <<x>> \o t : t \in Strips(shape, prev, cols, j + 1, put + x, left - x) } : x \in 0 .. lim }

\* f : <<shape, rows of the last letter>> -> number of fillings
LRStep(f, cols, size) ==
  FoldSet(LAMBDA s, acc :
            FoldSet(LAMBDA a, acc2 :
                      LET t == <<[j \in 1 .. Len(a) |-> s[1][j] + a[j]], a>>
                      IN IF t \in DOMAIN acc2 THEN [acc2 EXCEPT ![t] = @ + f[s]] ELSE acc2 @@ (t :> f[s]),
                    acc, Strips(s[1], s[2], cols, 1, 0, size)),
          <<>>, DOMAIN f)

\* product of the Schur functions of l and m, shapes with at most rows rows and
\* cols columns only
LRProduct(l, m, rows, cols) ==
  IF Len(l) > rows \/ Len(m) > rows THEN Zero
  ELSE LET start == <<[j \in 1 .. rows |-> At(l, j)], <<>>>> :> 1
           end == FoldLeft(LAMBDA f, size : TLCEval(LRStep(f, cols, size)), start, m)
       IN FoldSet(LAMBDA s, acc : Add(acc, <<Q0, Clip(s[1])>> :> end[s]), Zero, DOMAIN end)

\* the product of two classes of an ordinary Grassmannian X
LRClasses(X, qf, l, m) ==
  IF ~ qf THEN LRProduct(l, m, Rows(X), X.k)
  ELSE LET f == LRProduct(l, m, Rows(X), At(l, 1) + At(m, 1))
           image(t) == LET h == RimReduce(t[2], Rows(X), X.k)
                       IN IF h.c = 0 THEN Zero ELSE <<<<h.d, 0, 0>>, h.part>> :> h.c
       IN FoldSet(LAMBDA t, acc : Add(acc, Scale(f[t], image(t))), Zero, DOMAIN f)
=============================================================================
