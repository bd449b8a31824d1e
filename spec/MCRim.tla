-------------------------------- MODULE MCRim -------------------------------
(* Removing rim hooks, one per step, from the end of the first row.  The      *)
(* abacus computation is compared with the geometric definition: a connected  *)
(* skew strip of r boxes without a 2x2 square whose removal leaves a          *)
(* partition and which contains the last box of the first row.                *)
EXTENDS RimHook

CONSTANTS MaxRows, MaxCols, MaxR

VARIABLES l, r, box, count, height
vars == <<l, r, box, count, height>>

Init ==
  /\ l \in PartitionsIn(MaxRows, MaxCols)
  /\ r \in 1 .. MaxR
  /\ box \in (0 .. MaxRows) \X (0 .. MaxCols)
  /\ count = 0 /\ height = 0

Next ==
  /\ count = 0 \/ ~ Fits(l, box[1], box[2])
  /\ LET h == FirstRowHook(l, r) IN
     /\ h.ok
     /\ l' = h.part /\ count' = count + 1 /\ height' = height + h.height
  /\ UNCHANGED <<r, box>>

IsPart == IsPartition(l)

\* ---- the definition ---------------------------------------------------------
Skew(big, small) ==
  UNION { {<<i, c>> : c \in (At(small, i) + 1) .. big[i]} : i \in 1 .. Len(big) }
\* a border strip has boxes of consecutive contents, each once, and is connected
Contents(S) == {x[2] - x[1] : x \in S}
RowsOf(S) == {x[1] : x \in S}
\* consecutive rows overlap in exactly one column
BorderStrip(S) ==
  /\ Cardinality(Contents(S)) = Cardinality(S)
  /\ \E lo \in Contents(S) : Contents(S) = lo .. (lo + Cardinality(S) - 1)
  /\ \A x \in S : ~ \E y \in S : y[1] = x[1] + 1 /\ y[2] = x[2] + 1
Hooks(big, n) ==
  {m \in PartitionsIn(MaxRows, MaxCols) :
     /\ Includes(big, m) /\ Size(big) - Size(m) = n
     /\ <<1, big[1]>> \in Skew(big, m) /\ BorderStrip(Skew(big, m))}

\* r >= 1: the hook starting in the first row is the only one, and it is the
\* one found; its height is its number of rows
Geometric ==
  LET h == FirstRowHook(l, r) IN
  l # <<>> =>
    /\ Hooks(l, r) = IF h.ok THEN {h.part} ELSE {}
    /\ h.ok => Cardinality(RowsOf(Skew(l, h.part))) = h.height

\* the recursive summary agrees with the steps
Summary ==
  LET s == StripHooks(l, r, box[1], box[2], count, height) IN
  count = 0 => LET t == RimHooks(l, r, box[1], box[2]) IN
    /\ s = t
    /\ t.ok => Size(l) - Size(t.part) = r * t.count /\ Fits(t.part, box[1], box[2]) /\ t.count >= 1

\* the order of removal does not matter for what is left: the r-core is
\* determined by the residues of the beads
Residues(m, len) == [c \in 0 .. r - 1 |-> Cardinality({i \in 1 .. len : (At(m, i) + len - i) % r = c})]
CoreKept ==
  LET h == FirstRowHook(l, r) IN h.ok => Residues(l, MaxRows) = Residues(h.part, MaxRows)
=============================================================================
