------------------------------ MODULE Contract ------------------------------
(* The observable contract of the library: for each kind of event recorded    *)
(* from the implementation, Verdict(ctx, e) is "ok" or names the clause that  *)
(* the event violates.  ctx.X[g] is the g-th Grassmannian of the trace,       *)
(* ctx.T[g].c and ctx.T[g].q its classical and quantum multiplication tables  *)
(* (empty when not needed).                                                   *)
EXTENDS Program, Iso, LR, SchurPoly, Render, Toolbox, Cache

(* ---- reading recorded values -------------------------------------------- *)
FunOf(pairs) ==        \* seq of <<key, value>>, keys distinct
  LET D == {pairs[i][1] : i \in 1 .. Len(pairs)}
  IN TLCEval([d \in D |-> (CHOOSE p \in ToSet(pairs) : p[1] = d)[2]])

\* r.t is a sequence of [c, q, m]; m a sequence of <<label, exponent>>
PolyOf(r) == FunOf([i \in 1 .. Len(r.t) |-> <<<<r.t[i].q, FunOf(r.t[i].m)>>, r.t[i].c>>])

IsPoly(r) == r.kind = "poly"
IsElemRes(r) == IsPoly(r) /\ \A i \in 1 .. Len(r.t) : Len(r.t[i].m) = 1 /\ r.t[i].m[1][2] = 1
ElemOf(r) == FunOf([i \in 1 .. Len(r.t) |-> <<<<r.t[i].q, r.t[i].m[1][1]>>, r.t[i].c>>])

\* r denotes f/d
EqPoly(r, f, d) == IsPoly(r) /\ Scale(d, PolyOf(r)) = Scale(r.den, f)
EqElem(r, f, d) == IsElemRes(r) /\ Scale(d, ElemOf(r)) = Scale(r.den, f)

\* the argument of an event: a syntax tree over the common denominator d
ArgPoly(a) == TLCEval(EvalPoly(a.x))
ArgElem(a) == ToElem(ArgPoly(a))

\* the arguments were still the same after the call
Kept(e) == "kept" \notin DOMAIN e \/ e.kept

Raised(r, names) == r.kind = "exc" /\ r.t \in names
IsExc(r) == r.kind = "exc"

Tab(ctx, e) == IF e.qf THEN ctx.T[e.g].q ELSE ctx.T[e.g].c
AllClasses(X, f) == \A t \in DOMAIN f : \A l \in DOMAIN t[2] : IsClass(X, l)

(* ---- products ------------------------------------------------------------ *)
PieriVerdict(X, e) ==
  LET f == ArgElem(e.a)
      want == LinExt(LAMBDA l : PieriOp(X, e.qf, e.p, l), f)
  IN IF ~ IsElemRes(e.res) THEN "result-is-not-a-combination-of-classes"
     ELSE IF ~ Supported(X, ElemOf(e.res)) THEN "term-outside-the-Schubert-basis"
     ELSE IF ~ EqElem(e.res, want, e.a.d) THEN "wrong-product"
     ELSE "ok"

\* value of a polynomial: by Pieri operators when only special classes occur,
\* by the table otherwise
SpecialOnly(X, f) == \A t \in DOMAIN f : \A l \in DOMAIN t[2] : IsSpecialLabel(X, l)
Value(ctx, e, f, start) ==
  LET X == ctx.X[e.g] IN
  IF SpecialOnly(X, f) THEN PieriEvalOn(X, e.qf, f, start)
  ELSE RingEvalOn(Tab(ctx, e), f, start)
\* linear polynomials need no table to be evaluated on 1
ValueOnOne(ctx, e, f) == IF IsLinear(f) THEN ToElem(f) ELSE Value(ctx, e, f, One)

GiambelliVerdict(ctx, e) ==
  LET X == ctx.X[e.g]
      f == ArgPoly(e.a)
  IN IF ~ IsPoly(e.res) THEN "no-polynomial"
     ELSE LET g == PolyOf(e.res) IN
       IF ~ SpecialOnly(X, g) THEN "factor-is-not-a-special-class"
       ELSE IF Scale(e.a.d, PieriEvalOn(X, e.qf, g, One))
                 # Scale(e.res.den, ValueOnOne(ctx, e, f)) THEN "does-not-evaluate-to-the-input"
       ELSE "ok"

ProductVerdict(ctx, e) ==      \* mult, act, qmult, qact: a acts on b
  LET want == Value(ctx, e, ArgPoly(e.a), ArgElem(e.b))
  IN IF ~ IsElemRes(e.res) THEN "result-is-not-a-combination-of-classes"
     ELSE IF ~ EqElem(e.res, want, e.a.d * e.b.d) THEN "wrong-product" ELSE "ok"

ToSVerdict(ctx, e) ==
  IF ~ EqElem(e.res, ValueOnOne(ctx, e, ArgPoly(e.a)), e.a.d) THEN "wrong-value" ELSE "ok"

\* products of several classes (e.rows) with one class, without a table
ColumnVerdict(ctx, e) ==
  LET X == ctx.X[e.g]
      top == FoldLeft(LAMBDA acc, r : Max2(acc, Codim(r.l)), 0, e.rows)
      col == TLCEval(Column(X, e.qf, e.y, top))
      bad == {i \in 1 .. Len(e.rows) : ~ EqElem(e.rows[i].res, col[e.rows[i].l], 1)}
  IN IF bad = {} THEN "ok" ELSE "wrong-product"

\* type A: products by the Littlewood-Richardson rule, for varieties of any size
LRVerdict(X, e) ==
  IF X.t # "A" THEN "not-type-A"
  ELSE IF ~ IsElemRes(e.res) THEN "result-is-not-a-combination-of-classes"
  ELSE IF ~ EqElem(e.res, LRClasses(X, e.qf, e.l, e.m), 1) THEN "differs-from-the-Littlewood-Richardson-rule" ELSE "ok"

(* ---- laws ------------------------------------------------------------------ *)
\* all results denote one element, and it is supported on the basis
EqualVerdict(X, e) ==
  IF \E i \in 1 .. Len(e.res) : ~ IsElemRes(e.res[i]) THEN "result-is-not-a-combination-of-classes"
  ELSE LET f == ElemOf(e.res[1]) IN
    IF \E i \in 1 .. Len(e.res) : ~ EqElem(e.res[i], f, e.res[1].den) THEN e.law
    ELSE IF ~ Supported(X, f) THEN "term-outside-the-Schubert-basis" ELSE "ok"

\* e.whole = sum of c * part.  Integer results only (den = 1).
CombineVerdict(X, e) ==
  IF ~ IsElemRes(e.whole) \/ \E i \in 1 .. Len(e.parts) : ~ IsElemRes(e.parts[i].r)
  THEN "result-is-not-a-combination-of-classes"
  ELSE LET sum == FoldLeft(LAMBDA acc, p : Add(acc, Scale(p.c, QShift(p.q, ElemOf(p.r)))), Zero, e.parts)
       IN IF ElemOf(e.whole) # sum THEN e.law ELSE "ok"

GradedVerdict(X, e) ==
  IF ~ IsElemRes(e.cl) \/ ~ IsElemRes(e.qu) THEN "result-is-not-a-combination-of-classes"
  ELSE LET c == ElemOf(e.cl)  q == ElemOf(e.qu)  d == Codim(e.l1) + Codim(e.l2) IN
    IF e.cl.den # 1 \/ e.qu.den # 1 THEN "coefficient-not-an-integer"
    ELSE IF ~ Supported(X, c) \/ ~ Supported(X, q) THEN "term-outside-the-Schubert-basis"
    ELSE IF ~ Positive(c) \/ ~ Positive(q) THEN "coefficient-not-positive"
    ELSE IF ~ Homogeneous(X, c, d) \/ ~ Homogeneous(X, q, d) THEN "wrong-degree"
    ELSE IF c # ClassicalPart(q) \/ ClassicalPart(c) # c THEN "classical-limit"
    ELSE "ok"

\* products with corresponding classes on isomorphic Grassmannians
IsoVerdict(ctx, e) ==
  LET X == ctx.X[e.g]  Y == ctx.X[e.h]  f == ArgElem(e.a) IN
  IF e.kind \notin IsoKinds(X) \/ Y # Partner(e.kind, X) \/ (e.qf /\ ~ Quantum(e.kind))
     \/ e.m # IsoLabel(e.kind, X, e.l) \/ ArgElem(e.b) # IsoImage(e.kind, X, f) THEN "not-corresponding-arguments"
  ELSE IF ~ IsElemRes(e.res) \/ ~ IsElemRes(e.res2) THEN "result-is-not-a-combination-of-classes"
  ELSE IF ~ Supported(X, ElemOf(e.res)) \/ ~ Supported(Y, ElemOf(e.res2)) THEN "term-outside-the-Schubert-basis"
  ELSE IF e.res.den # 1 \/ e.res2.den # 1 THEN "coefficient-not-an-integer"
  ELSE IF IsoImage(e.kind, X, ElemOf(e.res)) # Scale(IsoFactor(e.kind, X, e.l), ElemOf(e.res2)) THEN "products-differ"
  ELSE "ok"

(* ---- computations ----------------------------------------------------------- *)
ProgramVerdict(ctx, e) ==
  LET want == TLCEval(Run(ctx.X[e.g], ctx.T[e.g], e.prog))
      bad == {i \in 1 .. Len(e.outs) : ~ EqElem(e.outs[i], want[i], 1)}
  IN IF bad = {} THEN "ok" ELSE "wrong-result-of-" \o e.prog[CHOOSE i \in bad : \A j \in bad : i <= j].o

(* ---- linear maps on labels ------------------------------------------------ *)
LinearVerdict(e, F(_), G(_)) ==   \* F on labels, G : label in domain
  LET f == ArgElem(e.a)
      want == LinExt(LAMBDA l : ClassElem(F(l)), f)
  IN IF ~ EqElem(e.res, want, e.a.d) THEN "wrong-image" ELSE "ok"

PairVerdict(e, F(_)) ==
  LET f == ArgElem(e.a)
      want == LinExt(LAMBDA l : ClassElem(F(l)), f)
  IN IF e.res.kind # "ppoly" THEN (IF DOMAIN f = {} /\ IsPoly(e.res) /\ e.res.t = <<>> THEN "ok" ELSE "not-a-combination-of-pairs")
     ELSE IF \E i \in 1 .. Len(e.res.t) : Len(e.res.t[i].m) # 1 \/ e.res.t[i].m[1][2] # 1 THEN "not-linear"
     ELSE IF Scale(e.a.d, ElemOf(e.res)) # Scale(e.res.den, want) THEN "wrong-image" ELSE "ok"

\* e.prods: for each class of complementary codimension its product with e.l
DualityVerdict(X, e) ==
  LET pt == ClassElem(PointLabel(X)) IN
  IF ~ EqElem(e.dual, ClassElem(Dual(X, e.l)), 1) THEN "wrong-dual-class"
  ELSE IF ~ EqElem(e.dual2, ClassElem(e.l), 1) THEN "not-an-involution"
  ELSE IF ToSet([i \in 1 .. Len(e.prods) |-> e.prods[i].l])
            # {m \in Classes(X) : Codim(m) = Dim(X) - Codim(e.l)} THEN "classes-of-complementary-codimension"
  ELSE IF \E i \in 1 .. Len(e.prods) :
            ~ EqElem(e.prods[i].r, IF e.prods[i].l = Dual(X, e.l) THEN pt ELSE Zero, 1)
       THEN "pairing-is-not-the-identity"
  ELSE "ok"

(* ---- descriptions --------------------------------------------------------- *)
InfoVerdict(X, e) ==
  CASE e.what = "classes" ->
         IF e.res.kind # "labels" THEN "no-list-of-classes"
         ELSE IF ~ EachOnce(e.res.v, Classes(X)) THEN "not-each-class-once"
         ELSE IF ~ StrictlyIncreasing(e.res.v) THEN "not-in-increasing-order" ELSE "ok"
    [] e.what = "generators" ->
         IF e.res.kind # "labels" THEN "no-list-of-classes"
         ELSE IF e.res.v # GeneratorSeq(X) THEN "wrong-generators" ELSE "ok"
    [] e.what = "point" ->
         IF e.res.kind # "labels" THEN "no-class"
         ELSE IF Len(e.res.v) # 1 \/ ~ IsClass(X, e.res.v[1]) \/ Codim(e.res.v[1]) # Dim(X)
              THEN "wrong-point-class" ELSE "ok"
    [] e.what = "degq" ->
         IF e.res.kind # "int" THEN "no-number" ELSE IF e.res.v # DegQ(X) THEN "wrong-degree-of-q" ELSE "ok"
    [] e.what = "describe" ->
         IF e.res.kind # "str" THEN "no-text" ELSE IF e.res.v # DescribeText(X) THEN "wrong-description" ELSE "ok"
    [] e.what = "typedata" ->
         IF e.res.kind # "data" THEN "no-type-data"
         ELSE IF e.res.s # <<X.t, Family(X)>> \/ e.res.n # <<X.k, X.n, M(X), NN(X), DegQ(X)>>
         THEN "wrong-type-data" ELSE "ok"

TypeVerdict(X, e) ==
  IF X.t # "D" THEN (IF Raised(e.res, {"ValueError"}) THEN "ok" ELSE "type-outside-type-D")
  ELSE IF e.res.kind # "int" THEN "no-number"
  ELSE IF e.res.v # ClassType(e.l, X.k) THEN "wrong-type" ELSE "ok"

(* ---- partitions and hooks ------------------------------------------------- *)
PartitionVerdict(e) ==
  IF ~ e.ints \/ ~ IsWeakPartition(e.l)
  THEN (IF Raised(e.res, {"ValueError"}) THEN "ok" ELSE "accepts-what-is-no-partition")
  ELSE IF e.res.kind # "labels" \/ e.res.v # <<e.l>> THEN "wrong-parts" ELSE "ok"

InRangeVerdict(e) ==
  IF e.rows < 0 \/ e.cols < 0 THEN (IF Raised(e.res, {"ValueError"}) THEN "ok" ELSE "negative-grid-accepted")
  ELSE IF e.res.kind # "bool" THEN "no-answer"
  ELSE IF e.res.v # Fits(e.l, e.rows, e.cols) THEN "wrong-answer" ELSE "ok"

HeightVerdict(e) ==
  IF \E i \in 1 .. Len(e.l) : i > Len(e.u) \/ e.l[i] > At(e.u, i)
  THEN (IF Raised(e.res, {"ValueError"}) THEN "ok" ELSE "accepts-what-is-not-contained")
  ELSE IF e.res.kind # "int" THEN "no-number"
  ELSE IF e.res.v # Cardinality({i \in 1 .. Len(e.u) : e.u[i] > At(e.l, i)}) THEN "wrong-height" ELSE "ok"

RimVerdict(e) ==
  LET h == RimHooks(e.l, e.r, e.rows, e.cols) IN
  IF e.res.kind # "rim" THEN "no-result"
  ELSE IF h.ok
       THEN (IF e.res.part # h.part THEN "wrong-remainder"
             ELSE IF e.res.count # h.count THEN "wrong-number-of-hooks"
             ELSE IF e.res.height # h.height THEN "wrong-heights" ELSE "ok")
       ELSE (IF e.res.part # <<>> \/ e.res.count # 0 \/ e.res.height # 0 THEN "possible-reported" ELSE "ok")

(* ---- expressions ---------------------------------------------------------- *)
ArithVerdict(e) ==
  IF ~ IsPoly(e.res) THEN "no-polynomial"
  ELSE IF ~ EqPoly(e.res, ArgPoly(e.a), e.a.d) THEN "wrong-value"
  ELSE IF "islc" \in DOMAIN e /\ ~ e.islc THEN "not-a-LinearCombination"
  ELSE "ok"

\* substitution of symbols by polynomials
RECURSIVE SubstMono(_, _, _)
SubstMono(m, f, L) ==
  IF L = {} THEN PConst(1)
  ELSE LET l == CHOOSE l \in L : TRUE
       IN PMul(PPow(IF l \in DOMAIN f THEN f[l] ELSE PSym(l), m[l]), SubstMono(m, f, L \ {l}))
Subst(p, f) ==
  FoldSet(LAMBDA t, acc : Add(acc, Scale(p[t], QShift(t[1], SubstMono(t[2], f, DOMAIN t[2])))), Zero, DOMAIN p)
ApplyVerdict(e) ==
  LET f == FunOf([i \in 1 .. Len(e.f) |-> <<e.f[i].l, TLCEval(EvalPoly(e.f[i].x))>>])
  IN IF ~ IsPoly(e.res) THEN "no-polynomial"
     ELSE IF ~ EqPoly(e.res, Subst(ArgPoly(e.a), f), e.a.d) THEN "wrong-substitution" ELSE "ok"

SpellVerdict(e) ==    \* every spelling gave the same polynomial
  IF \E i \in 1 .. Len(e.res) : e.res[i].kind # e.res[1].kind THEN "spellings-differ"
  ELSE IF e.res[1].kind = "poly"
       THEN (IF \E i \in 2 .. Len(e.res) : ~ EqPoly(e.res[i], PolyOf(e.res[1]), e.res[1].den)
             THEN "spellings-differ" ELSE "ok")
  ELSE IF e.res[1].kind = "exc" THEN "raises"
  ELSE IF \E i \in 2 .. Len(e.res) : e.res[i] # e.res[1] THEN "spellings-differ" ELSE "ok"

\* an expansion: entries [c : polynomial without symbols, l]
HasQ(qd) == qd # Q0
ExpansionVerdict(e) ==
  LET f == ArgPoly(e.a)
      keep == {t \in DOMAIN f : e.q \/ ~ HasQ(t[1])}
      \* a number is that multiple of the unit S[]
      want == FoldSet(LAMBDA t, acc : Add(acc, (IF t[2] = MonoOne THEN <<t[1], <<>> :> 1>> ELSE t) :> f[t]), Zero, keep)
      nonlin == \E t \in DOMAIN f : t[2] # MonoOne /\ ~ IsLinearMono(t[2])
  IN IF nonlin THEN (IF Raised(e.res, {"ValueError"}) THEN "ok" ELSE "accepts-a-product")
     ELSE IF e.res.kind # "expansion" THEN "no-expansion"
     ELSE LET v == e.res.v
              sum == FoldLeft(LAMBDA acc, x : Add(acc, Scale(e.a.d \div x.c.den, PMul(PolyOf(x.c), PSym(x.l)))), Zero, v)
          IN IF \E i \in 1 .. Len(v) : v[i].c.kind # "poly" \/ e.a.d % v[i].c.den # 0 THEN "coefficient"
             ELSE IF sum # want THEN "terms"
             ELSE IF Len(v) # e.terms THEN "number-of-entries"
             ELSE IF \E i \in 1 .. Len(v) - 1 : LexLess(v[i + 1].l, v[i].l) THEN "order" ELSE "ok"

DrawVerdict(e) ==
  IF e.res.kind # "lines" THEN "no-drawing"
  ELSE IF e.res.v # SumLines(e.terms) THEN "wrong-drawing" ELSE "ok"

\* e.a an expanded expression
InspectVerdict(e) ==
  LET f == ArgPoly(e.a)
      syms == UNION {DOMAIN t[2] : t \in DOMAIN f}
      noq == \A t \in DOMAIN f : t[1] = Q0
      ops == IF Cardinality(DOMAIN f) > 1 THEN <<TRUE, FALSE, FALSE>>
             ELSE IF f = Zero THEN <<FALSE, FALSE, FALSE>>
             ELSE LET t == CHOOSE t \in DOMAIN f : TRUE
                      parts == Cardinality(DOMAIN t[2]) + Cardinality({j \in 1 .. 3 : t[1][j] > 0})
                               + (IF f[t] # 1 THEN 1 ELSE 0)
                      powers == Cardinality({l \in DOMAIN t[2] : t[2][l] > 1}) + Cardinality({j \in 1 .. 3 : t[1][j] > 1})
                  IN <<FALSE, parts > 1, parts = 1 /\ powers = 1>>
  IN IF e.res.kind # "inspected" THEN "no-answer"
     ELSE IF ToSet(e.res.syms) # syms THEN "symbols"
     ELSE IF e.res.padded # (\E l \in syms : l # <<>> /\ l[Len(l)] = 0) THEN "zero-padding"
     ELSE IF e.a.d = 1 /\ e.res.ops # ops THEN "outermost-operation"
     ELSE IF noq /\ e.res.valid # (\A t \in DOMAIN f : t[2] = MonoOne \/ IsLinearMono(t[2])) THEN "linearity"
     ELSE IF Cardinality(DOMAIN f) > 1 /\ e.res.len # Cardinality(DOMAIN f) THEN "number-of-terms"
     ELSE "ok"

(* ---- tables --------------------------------------------------------------- *)
TableVerdict(ctx, e) ==
  LET X == ctx.X[e.g]  T == Tab(ctx, e)  L == e.rows IN
  IF e.rows # e.cols \/ ~ EachOnce(L, Classes(X)) \/ ~ StrictlyIncreasing(L) THEN "labels"
  ELSE IF Len(e.cells) # Len(L) \/ \E i \in 1 .. Len(L) : Len(e.cells[i]) # Len(L) THEN "shape"
  ELSE IF \E i, j \in 1 .. Len(L) : ~ EqElem(e.cells[i][j], T[L[i]][L[j]], 1) THEN "wrong-cell"
  ELSE "ok"

(* ---- Schur polynomials ---------------------------------------------------- *)
SchurPolyVerdict(e) ==
  IF ~ e.ints \/ e.n < 1 \/ ~ IsWeakPartition(e.l)
  THEN (IF Raised(e.res, {"ValueError"}) THEN "ok" ELSE "invalid-argument-accepted")
  ELSE IF e.res.kind # "xpoly" THEN "no-polynomial"
  ELSE IF FunOf(e.res.v) # SchurPolynomial(Clip(e.l), e.n) THEN "wrong-coefficient" ELSE "ok"

(* ---- constructors --------------------------------------------------------- *)
CtorVerdict(e) ==
  IF ~ e.ints THEN (IF Raised(e.res, {"TypeError"}) THEN "ok" ELSE "non-integers-accepted")
  ELSE IF ~ ValidArgs(e.fam, e.m, e.N) THEN (IF Raised(e.res, {"ValueError"}) THEN "ok" ELSE "accepts-impossible-dimensions")
  ELSE InfoVerdict(FromArgs(e.fam, e.m, e.N), [e EXCEPT !.what = "typedata"])

\* Schur objects ------------------------------------------------------------- *)
SchurVerdict(e) ==
  LET S == e.labels  n == Len(S)
      Less(a, b) == IF e.pairs THEN PairLess(a, b) ELSE LexLess(a, b)
      Text(a) == IF e.pairs THEN PairText(a) ELSE LabelText(a) IN
  IF e.res.kind # "schur" THEN "no-result"
  ELSE IF \E i, j \in 1 .. n : e.res.eq[i][j] # (S[i] = S[j]) THEN "equality"
  ELSE IF \E i, j \in 1 .. n : S[i] = S[j] /\ e.res.hash[i] # e.res.hash[j] THEN "hash"
  ELSE IF \E i, j \in 1 .. n : e.res.lt[i][j] # Less(S[i], S[j]) THEN "order"
  ELSE IF \E i \in 1 .. n : e.res.text[i] # Text(S[i]) THEN "text"
  ELSE IF \E i \in 1 .. n : \E j \in 1 .. Len(e.res.back[i]) : e.res.back[i][j] # S[i] THEN "round-trip"
  ELSE IF \E i \in 1 .. Len(e.res.sorted) - 1 : Less(e.res.sorted[i + 1], e.res.sorted[i]) THEN "sorting"
  ELSE IF \A s \in ToSet(S) : s \in ToSet(e.res.uniq) /\ Len(e.res.uniq) = Cardinality(ToSet(S)) THEN "ok"
  ELSE "duplicates"

BoxVerdict(e) ==      \* e.res.v : boxes <<x, y>> drawn, y counted downwards
  IF e.res.kind # "boxes" THEN "no-drawing"
  ELSE IF ~ EachOnce(e.res.v, Boxes(e.l)) THEN "wrong-boxes" ELSE "ok"

LinesVerdict(e) ==
  IF e.res.kind # "lines" THEN "no-drawing"
  ELSE IF e.res.v # DiagramLines(e.l, e.box) THEN "wrong-diagram" ELSE "ok"

(* ---- CSV tables ----------------------------------------------------------- *)
RowSet(rows) == {<<rows[i].a, rows[i].b, TLCEval(EvalPoly(rows[i].x))>> : i \in 1 .. Len(rows)}
CsvVerdict(e) ==
  IF e.res.kind # "bool" THEN "no-answer"
  ELSE IF e.res.v # (RowSet(e.rows1) = RowSet(e.rows2)) THEN "wrong-answer" ELSE "ok"

(* ---- utilities ------------------------------------------------------------ *)
UtilVerdict(e) ==
  CASE e.what = "all_kstrict" ->
         IF e.res.kind # "labels" THEN "no-list"
         ELSE IF ~ EachOnce(e.res.v, KStrictIn(e.k, e.rows, e.cols)) THEN "not-each-partition-once" ELSE "ok"
    [] e.what = "part_gen" ->
         IF e.res.kind # "labels" THEN "no-list"
         ELSE IF ~ EachOnce(e.res.v, PartitionsIn(e.rows, e.cols)) THEN "not-each-partition-once" ELSE "ok"
    [] e.what = "part_conj" ->
         IF e.res.kind # "labels" \/ e.res.v # <<Conj(Clip(e.l)), Clip(e.l)>> THEN "wrong-conjugate" ELSE "ok"
    [] e.what = "part_clip" ->
         IF e.res.kind # "labels" \/ e.res.v # <<Clip(e.l)>> THEN "wrong-clipping" ELSE "ok"

(* ---- memoising decorators ------------------------------------------------- *)
\* ops: the calls and computations in the order they happened; answers: for
\* each completed outermost call what came back and what the plain function
\* gives
CacheVerdict(e) ==
  IF \E i \in 1 .. Len(e.answers) : e.answers[i][1] # e.answers[i][2] THEN "answer-differs-from-the-plain-function"
  ELSE IF ~ Replay(e.cap, e.ops).ok THEN "recomputed-or-remembered-wrongly"
  ELSE "ok"

(* ---- dispatch -------------------------------------------------------------- *)
Verdict0(ctx, e) ==
  CASE e.op = "pieri" -> PieriVerdict(ctx.X[e.g], e)
    [] e.op = "giambelli" -> GiambelliVerdict(ctx, e)
    [] e.op \in {"mult", "act"} -> ProductVerdict(ctx, e)
    [] e.op = "toS" -> ToSVerdict(ctx, e)
    [] e.op = "column" -> ColumnVerdict(ctx, e)
    [] e.op = "lr" -> LRVerdict(ctx.X[e.g], e)
    [] e.op = "equal" -> EqualVerdict(ctx.X[e.g], e)
    [] e.op = "combine" -> CombineVerdict(ctx.X[e.g], e)
    [] e.op = "program" -> ProgramVerdict(ctx, e)
    [] e.op = "iso" -> IsoVerdict(ctx, e)
    [] e.op = "graded" -> GradedVerdict(ctx.X[e.g], e)
    [] e.op = "dualize" -> LinearVerdict(e, LAMBDA l : Dual(ctx.X[e.g], l), LAMBDA l : TRUE)
    [] e.op = "duality" -> DualityVerdict(ctx.X[e.g], e)
    [] e.op = "info" -> InfoVerdict(ctx.X[e.g], e)
    [] e.op = "part2index" -> LinearVerdict(e, LAMBDA l : PartToIndex(ctx.X[e.g], l), LAMBDA l : TRUE)
    [] e.op = "index2part" -> LinearVerdict(e, LAMBDA P : IndexToPart(ctx.X[e.g], P), LAMBDA l : TRUE)
    [] e.op = "part2pair" -> PairVerdict(e, LAMBDA l : PairOf(l, ctx.X[e.g].k))
    [] e.op = "pair2part" -> LinearVerdict(e, LAMBDA p : PartOfPair(p), LAMBDA l : TRUE)
    [] e.op = "schub_type" -> TypeVerdict(ctx.X[e.g], e)
    [] e.op = "type_swap" -> LinearVerdict(e, LAMBDA l : IF ctx.X[e.g].t = "D" THEN TypeSwap(l, ctx.X[e.g].k) ELSE l, LAMBDA l : TRUE)
    [] e.op = "miami_swap" -> LinearVerdict(e, LAMBDA l : IF ctx.X[e.g].t = "D" THEN MiamiSwap(l, ctx.X[e.g].k) ELSE l, LAMBDA l : TRUE)
    [] e.op = "partition" -> PartitionVerdict(e)
    [] e.op = "in_range" -> InRangeVerdict(e)
    [] e.op = "rim" -> RimVerdict(e)
    [] e.op = "skew" -> HeightVerdict(e)
    [] e.op = "arith" -> ArithVerdict(e)
    [] e.op = "apply" -> ApplyVerdict(e)
    [] e.op = "spell" -> SpellVerdict(e)
    [] e.op = "expansion" -> ExpansionVerdict(e)
    [] e.op = "inspect" -> InspectVerdict(e)
    [] e.op = "draw" -> DrawVerdict(e)
    [] e.op = "table" -> TableVerdict(ctx, e)
    [] e.op = "schurpoly" -> SchurPolyVerdict(e)
    [] e.op = "ctor" -> CtorVerdict(e)
    [] e.op = "raises" -> IF Raised(e.res, ToSet(e.names)) THEN "ok" ELSE e.law
    [] e.op = "schur" -> SchurVerdict(e)
    [] e.op = "boxes" -> BoxVerdict(e)
    [] e.op = "lines" -> LinesVerdict(e)
    [] e.op = "csv" -> CsvVerdict(e)
    [] e.op = "util" -> UtilVerdict(e)
    [] e.op = "cache" -> CacheVerdict(e)
    [] e.op = "sage" -> IF e.res.kind # "labels" \/ e.res.v # <<e.l, e.l>> THEN "not-the-same-partition" ELSE "ok"

\* "res" may also be a sequence of results; those are judged one by one
Failed(e) == "res" \in DOMAIN e /\ e.op \notin {"equal", "spell"} /\ e.res.kind \in {"timeout", "bad", "big"}

Verdict(ctx, e) ==
  IF Failed(e) THEN e.res.kind
  ELSE LET v == Verdict0(ctx, e)
       IN IF v # "ok" THEN v ELSE IF Kept(e) THEN "ok" ELSE "argument-modified"
=============================================================================
