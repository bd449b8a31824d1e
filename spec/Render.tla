------------------------------- MODULE Render -------------------------------
(* What the library prints: texts, Young diagrams, boxes.                     *)
EXTENDS Variety

RECURSIVE Rep(_, _)
Rep(s, c) == IF c <= 0 THEN "" ELSE s \o Rep(s, c - 1)

RECURSIVE Joined(_, _)
Joined(seq, sep) ==      \* seq of strings
  IF seq = <<>> THEN "" ELSE IF Len(seq) = 1 THEN seq[1]
  ELSE seq[1] \o sep \o Joined(Tail(seq), sep)

LabelText(lab) == "S[" \o Joined([i \in 1 .. Len(lab) |-> ToString(lab[i])], ",") \o "]"

ListText(l) == "[" \o Joined([i \in 1 .. Len(l) |-> ToString(l[i])], ",") \o "]"
PairText(p) == "S[" \o ListText(p[1]) \o "," \o ListText(p[2]) \o "]"

\* The one-line description of a Grassmannian.
DescribeText(X) ==
  "Type " \o X.t \o " ;  (k,n) = (" \o ToString(X.k) \o "," \o ToString(X.n)
  \o ") ;  " \o Family(X) \o "(" \o ToString(M(X)) \o "," \o ToString(NN(X))
  \o ") ;  deg(q) = " \o ToString(DegQ(X))

\* One text line per row, box drawn `box`.
DiagramLines(l, box) == [i \in 1 .. Len(l) |-> Rep(box, l[i])]

Boxes(l) == UNION { {<<c - 1, r - 1>> : c \in 1 .. l[r]} : r \in 1 .. Len(l) }

\* A formal sum drawn side by side.  Each summand is [c, l]: the text of its
\* coefficient and its partition.  Blocks are as high as the longest diagram.
SumHeight(terms) ==
  LET hs == {Len(terms[i].l) : i \in 1 .. Len(terms)} \cup {1}
  IN CHOOSE h \in hs : \A x \in hs : x <= h
TermHead(terms, i) ==
  (IF i > 1 THEN " + " ELSE "") \o (IF terms[i].c = "1" THEN "" ELSE terms[i].c \o "*")
TermLine(terms, i, row) ==
  LET l == terms[i].l
      w == IF l = <<>> THEN 0 ELSE l[1]
      head == TermHead(terms, i)
  IN (IF row = 1 THEN head ELSE Rep(" ", Len(head)))
     \o Rep("[]", At(l, row)) \o Rep("  ", w - At(l, row))
SumLines(terms) ==
  [row \in 1 .. SumHeight(terms) |->
     Joined([i \in 1 .. Len(terms) |-> TermLine(terms, i, row)], "")]
=============================================================================
