------------------------------- MODULE Cache --------------------------------
(* A least-recently-used cache in front of a function.  The state is the      *)
(* sequence of remembered keys, least recently used first.  A call looks its  *)
(* key up (hit: the key becomes the most recently used one); a miss computes, *)
(* and when the computation returns normally its key is remembered, the least *)
(* recently used one being forgotten beyond the capacity.  cap = -1: no       *)
(* bound.                                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Remembered(order, k) == \E i \in 1 .. Len(order) : order[i] = k

Touch(order, k) == Append(SelectSeq(order, LAMBDA x : x # k), k)

Insert(cap, order, k) ==
  IF Remembered(order, k) THEN order      \* remembered meanwhile by a nested call
  ELSE LET o == Append(order, k)
       IN IF cap >= 0 /\ Len(o) > cap THEN Tail(o) ELSE o

\* Keys: positional arguments and keyword arguments apart; lists count as
\* tuples.  An argument is [t, v]: t \in {"int", "str", "none", "list",
\* "tuple", "obj"}.
\* "float" and "bool" occur only where the decorator was asked to keep types
\* apart, so that records of different t are different keys.
CanonArg(a) == IF a.t \in {"list", "tuple"} THEN [t |-> "seq", v |-> a.v] ELSE a
CanonKey(c) == [pos |-> [i \in 1 .. Len(c.pos) |-> CanonArg(c.pos[i])],
                kw |-> {<<c.kw[i].n, CanonArg(c.kw[i].a)>> : i \in 1 .. Len(c.kw)}]

(* ---- histories ------------------------------------------------------------ *)
\* An operation is [o |-> "call", key, hit] (hit: the function was not run) or
\* [o |-> "ret", key, raised] (a computation that was started has ended).
\* Replay: [ok, order].
ReplayStep(cap, st, op) ==
  IF ~ st.ok THEN st
  ELSE LET k == CanonKey(op.key) IN
    IF op.o = "call"
    THEN LET hit == Remembered(st.order, k) IN
         IF op.hit # hit THEN [st EXCEPT !.ok = FALSE]
         ELSE IF hit THEN [st EXCEPT !.order = Touch(st.order, k)] ELSE st
    ELSE IF op.raised THEN st ELSE [st EXCEPT !.order = Insert(cap, st.order, k)]
Replay(cap, ops) == FoldLeft(LAMBDA st, op : ReplayStep(cap, st, op), [ok |-> TRUE, order |-> <<>>], ops)
=============================================================================
