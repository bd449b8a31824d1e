------------------------------ MODULE Session -------------------------------
(* A session: a caller owns Grassmannian objects and mutable values (lists,   *)
(* Schur objects, LinearCombinations: its own arguments and the results it    *)
(* was given) and makes calls.  The state is                                  *)
(*   objs : what each object denotes                                          *)
(*   heap : the content of every value the caller holds                       *)
(*   ref  : the answer to each question (variety, operation, arguments) given *)
(*          by a process that computed nothing before                         *)
(* A call answers ref and changes neither objs nor the existing heap; only    *)
(* the caller changes heap (poke).                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Question(objs, o, f, args) == <<objs[o], f, args>>

\* reading a heap of values given as a sequence
SameHeap(heap, seen) == Len(heap) = Len(seen) /\ \A c \in 1 .. Len(heap) : heap[c] = seen[c]

Poked(heap, c, val) == [heap EXCEPT ![c] = val]
Given(heap, val) == Append(heap, val)
=============================================================================
