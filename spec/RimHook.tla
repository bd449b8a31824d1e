------------------------------ MODULE RimHook -------------------------------
(* Rim-hook removal on the abacus of first-column hook lengths.  Removing an  *)
(* r-rim hook whose head is the end of the first row moves the largest bead   *)
(* r places down onto a free non-negative position; the hook meets one row    *)
(* more than the number of beads jumped over.                                 *)
EXTENDS Partitions

Beads(l) == [i \in 1 .. Len(l) |-> l[i] + Len(l) - i]
FromBeads(B) ==       \* B a finite set of naturals
  LET s == SetToSortSeq(B, LAMBDA a, b : a > b)
  IN Clip([i \in 1 .. Len(s) |-> s[i] - (Len(s) - i)])

FirstRowHook(l, r) ==  \* [ok, part, height]
  IF l = <<>> THEN [ok |-> FALSE, part |-> l, height |-> 0]
  ELSE LET B == ToSet(Beads(l))  top == Beads(l)[1]  new == top - r
       IN IF new < 0 \/ new \in B THEN [ok |-> FALSE, part |-> l, height |-> 0]
          ELSE [ok |-> TRUE, part |-> FromBeads((B \ {top}) \cup {new}),
                height |-> 1 + Cardinality({b \in B : new < b /\ b < top})]

Fits(l, rows, cols) == Len(l) <= rows /\ (l = <<>> \/ l[1] <= cols)

\* Strip hooks until the rest fits: [ok, part, count, height].
RECURSIVE StripHooks(_, _, _, _, _, _)
StripHooks(l, r, rows, cols, count, height) ==
  LET h == FirstRowHook(l, r) IN
  IF ~ h.ok THEN [ok |-> FALSE, part |-> <<>>, count |-> 0, height |-> 0]
  ELSE IF Fits(h.part, rows, cols)
       THEN [ok |-> TRUE, part |-> h.part, count |-> count + 1, height |-> height + h.height]
       ELSE StripHooks(h.part, r, rows, cols, count + 1, height + h.height)

RimHooks(l, r, rows, cols) == StripHooks(Clip(l), r, rows, cols, 0, 0)

\* The rim-hook theorem (Bertram, Ciocan-Fontanine, Fulton): image in
\* QH(Gr(m,n)), k = n-m, of sigma_l for a partition with at most m rows:
\* [c, d, part] meaning c * q^d * sigma_part (c = 0: zero).
RimReduce(l, m, k) ==
  IF Fits(l, m, k) THEN [c |-> 1, d |-> 0, part |-> l]
  ELSE LET h == RimHooks(l, m + k, m, k)
       IN IF ~ h.ok THEN [c |-> 0, d |-> 0, part |-> <<>>]
          ELSE [c |-> IF (h.height - m * h.count) % 2 = 0 THEN 1 ELSE -1,
                d |-> h.count, part |-> h.part]
=============================================================================
