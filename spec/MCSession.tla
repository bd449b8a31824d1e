----------------------------- MODULE MCSession ------------------------------
(* Every session of Depth steps over NObj objects on NVar varieties with  *)
(* NF operations, in front of a library that remembers answers.  Mode    *)
(* says how it remembers:                                                     *)
(*   keyed    by variety, operation and argument content, handing out copies  *)
(*   noobj    without the variety in the key                                  *)
(*   alias    handing out the remembered value itself                         *)
(*   argref   keyed by the identity of the argument instead of its content    *)
(*   borrow   changing the object while it computes, putting it back when the *)
(*            computation ends normally                                       *)
(* Functional and Untouched hold for keyed and fail for each of the others    *)
(* (checked both ways).  The sessions of the keyed library are printed for    *)
(* replay into the real one.                                                  *)
EXTENDS Session, Json

CONSTANTS NObj, NF, NVar, Depth, Mode, Emit, Weighted

Objs == [o \in 1 .. NObj |-> ((o - 1) % NVar) + 1]

VARIABLES objs, heap, memo, hist, truth, last
vars == <<objs, heap, memo, hist, truth, last>>

\* objs[o] = [is: what the caller was promised, now: what it computes with]
Init ==
  /\ objs = [o \in 1 .. Len(Objs) |-> [is |-> Objs[o], now |-> Objs[o]]]
  /\ heap = <<>> /\ truth = <<>> /\ memo = <<>> /\ hist = <<>>
  /\ last = [got |-> <<>>, want |-> <<>>]

Answer(v, f, a) == <<v, f, a>>
ArgOf(h, a) == IF a = 0 THEN <<"const">> ELSE h[a]

Key(o, f, a) ==
  CASE Mode = "noobj" -> <<0, f, ArgOf(heap, a)>>
    [] Mode = "argref" -> <<objs[o].now, f, a>>
    [] OTHER -> <<objs[o].now, f, ArgOf(heap, a)>>

Known(k) == \E i \in 1 .. Len(memo) : memo[i][1] = k
Recall(k) == memo[CHOOSE i \in 1 .. Len(memo) : memo[i][1] = k][2]

\* the true content of the heap evolves by pokes and answers only
Call(o, f, a) ==
  LET k == Key(o, f, a)
      want == Answer(objs[o].is, f, ArgOf(truth, a))
      fresh == Answer(objs[o].now, f, ArgOf(heap, a))
      aliased == Mode = "alias" /\ Known(k)
      got == IF ~ Known(k) THEN fresh ELSE IF Mode = "alias" THEN heap[Recall(k)] ELSE Recall(k)
  IN /\ heap' = IF aliased THEN heap ELSE Append(heap, got)
     \* a caller that is handed a value it already holds now holds it twice
     /\ truth' = IF aliased THEN truth ELSE Append(truth, want)
     /\ memo' = IF Known(k) THEN memo
                ELSE Append(memo, <<k, IF Mode = "alias" THEN Len(heap) + 1 ELSE got>>)
     /\ last' = [got |-> got, want |-> want]
     /\ hist' = Append(hist, [a |-> "call", o |-> o, f |-> f, c |-> a, w |-> "ok"])
     /\ UNCHANGED objs

\* the call raises, or is interrupted from outside
Fail(o, f, w) ==
  /\ objs' = IF Mode = "borrow" THEN [objs EXCEPT ![o].now = (@ % NVar) + 1] ELSE objs
  /\ hist' = Append(hist, [a |-> "call", o |-> o, f |-> f, c |-> 0, w |-> w])
  /\ UNCHANGED <<heap, truth, memo, last>>

Poke(c) ==
  /\ heap' = Poked(heap, c, <<"poked", Len(hist)>>)
  /\ truth' = Poked(truth, c, <<"poked", Len(hist)>>)
  /\ hist' = Append(hist, [a |-> "poke", o |-> 0, f |-> 0, c |-> c, w |-> "ok"])
  /\ UNCHANGED <<objs, memo, last>>

Clone(o) ==
  /\ Len(objs) <= Len(Objs)
  /\ objs' = Append(objs, [is |-> objs[o].is, now |-> objs[o].now])
  /\ hist' = Append(hist, [a |-> "clone", o |-> o, f |-> 0, c |-> 0, w |-> "ok"])
  /\ UNCHANGED <<heap, truth, memo, last>>

SomeCall(w) ==
  \/ w = "ok" /\ \E o \in 1 .. Len(objs), f \in 1 .. NF, a \in {0} \cup ((Len(heap) - 1) .. Len(heap)) :
                    a >= 0 /\ Call(o, f, a)
  \/ w # "ok" /\ \E o \in 1 .. Len(objs), f \in 1 .. NF : Fail(o, f, w)
SomePoke == \E c \in 1 .. Len(heap) : Poke(c)
SomeClone == \E o \in 1 .. Len(objs) : Clone(o)
\* a question that was asked before, on any object
Again == \E i \in 1 .. Len(hist), o \in 1 .. Len(objs) : hist[i].a = "call" /\ Call(o, hist[i].f, 0)

\* For random sessions (-simulate): steps of every kind are equally frequent.
\* (RandomElement is evaluated once per step by TLC's LET.)
Drawn(x) ==
  CASE x <= 3 -> SomeCall("ok")
    [] x <= 6 -> IF hist # <<>> THEN Again ELSE SomeCall("ok")
    [] x <= 9 -> IF heap # <<>> THEN SomePoke ELSE SomeCall("ok")
    [] x = 10 -> SomeCall("fail")
    [] x = 11 -> SomeCall("interrupt")
    [] OTHER -> IF Len(objs) <= NObj THEN SomeClone ELSE SomeCall("ok")
Sometimes == \E x \in {RandomElement(1 .. 12)} : Drawn(x)

Next ==
  /\ Len(hist) < Depth
  /\ IF Weighted THEN Sometimes
     ELSE SomeCall("ok") \/ SomeCall("fail") \/ SomeCall("interrupt") \/ SomePoke \/ SomeClone

Functional == last.got = last.want
Untouched == heap = truth
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("@@B " \o ToJson(hist))
=============================================================================
