------------------------------ MODULE MCCache -------------------------------
(* All histories of calls of a cached function.  Each history of length Depth *)
(* is printed (Emit) for replay into the implementation.  A call is a key and *)
(* the way the computation ends, if there is one; calls may nest: "enter"     *)
(* starts a computation that is still running while the next call is made.    *)
EXTENDS Cache, Json

CONSTANTS NKeys, Cap, Depth, Raising, Nest, Emit

VARIABLES order, hist, stack, computed
vars == <<order, hist, stack, computed>>

Init == order = <<>> /\ hist = <<>> /\ stack = <<>> /\ computed = [k \in 1 .. NKeys |-> 0]

Hit(k) ==
  /\ Remembered(order, k)
  /\ order' = Touch(order, k)
  /\ hist' = Append(hist, [o |-> "call", k |-> k, hit |-> TRUE])
  /\ UNCHANGED <<stack, computed>>

Miss(k) ==         \* the computation starts
  /\ ~ Remembered(order, k)
  /\ ~ Remembered(stack, k) \/ Nest = 2
  /\ Len(stack) <= Nest
  /\ stack' = Append(stack, k)
  /\ hist' = Append(hist, [o |-> "call", k |-> k, hit |-> FALSE])
  /\ computed' = [computed EXCEPT ![k] = @ + 1]
  /\ UNCHANGED order

Return(raised) ==
  /\ stack # <<>>
  /\ LET k == stack[Len(stack)] IN
     /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
     /\ raised => k \in Raising
     /\ order' = IF raised THEN order ELSE Insert(Cap, order, k)
     /\ hist' = Append(hist, [o |-> "ret", k |-> k, raised |-> raised])
  /\ UNCHANGED computed

Call(k) == (Nest > 0 \/ stack = <<>>) /\ (Hit(k) \/ Miss(k))

More == Len(hist) < Depth \/ stack # <<>>
Next == \/ Len(hist) < Depth /\ \E k \in 1 .. NKeys : Call(k)
        \/ \E r \in BOOLEAN : Return(r)

NoDup == \A i, j \in 1 .. Len(order) : i # j => order[i] # order[j]
Bounded == Cap >= 0 => Len(order) <= Cap
\* at most Cap distinct keys so far (no exceptions, no nesting): nothing is
\* computed twice
Seen == {hist[i].k : i \in 1 .. Len(hist)}
OnceWithinCapacity ==
  (Nest < 2 /\ (Cap < 0 \/ Cardinality(Seen) <= Cap)) =>
     \A k \in 1 .. NKeys : k \notin Raising => computed[k] <= 1
\* exactly the most recently used keys are remembered (no nesting)
RECURSIVE LastUses(_, _, _)
LastUses(h, n, acc) ==
  IF h = <<>> \/ Cardinality(acc) = n THEN acc
  ELSE LET e == h[Len(h)]
           used == (e.o = "call" /\ e.hit) \/ (e.o = "ret" /\ ~ e.raised)
       IN LastUses(SubSeq(h, 1, Len(h) - 1), n, IF used THEN acc \cup {e.k} ELSE acc)
MostRecent == (Nest = 0 /\ Cap >= 0) => ToSet(order) = LastUses(hist, Cap, {})
RaisedForgotten == (Nest = 0 /\ hist # <<>> /\ hist[Len(hist)].o = "ret" /\ hist[Len(hist)].raised)
                      => ~ Remembered(order, hist[Len(hist)].k)

Emitted == (Emit /\ Len(hist) >= Depth /\ stack = <<>>) => PrintT("@@B " \o ToJson(hist))
=============================================================================
