---------------------------- MODULE SessionTrace ----------------------------
(* Sessions recorded from the implementation are behaviours of Session: each  *)
(* event is a step, and what was observed agrees with the state.              *)
EXTENDS Session, Json, IOUtils

VARIABLES i, bad, objs, heap, ref
vars == <<i, bad, objs, heap, ref>>

Tr == TLCGet(1)

Init ==
  /\ TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
  /\ i = atoi(IOEnv.START)
  /\ bad = 0
  /\ objs = <<>> /\ heap = <<>> /\ ref = <<>>

\* the reference answers are given by question number: e.refs is the sequence
\* of [v, f, args, ans] of the session
RefOf(q) ==
  LET D == {j \in 1 .. Len(ref) : <<ref[j].v, ref[j].f, ref[j].args>> = q}
  IN IF D = {} THEN "unknown" ELSE ref[CHOOSE j \in D : TRUE].ans

CallVerdict(e) ==
  IF \E j \in 1 .. Len(e.argcells) : heap[e.argcells[j].c] # e.argcells[j].val THEN "argument-differs-from-what-the-caller-holds"
  ELSE IF e.how = "done" /\ e.ans # RefOf(Question(objs, e.o, e.f, e.args)) THEN "answer-depends-on-history"
  ELSE IF "seen" \in DOMAIN e /\ ~ SameHeap(heap, e.seen) THEN "value-held-by-the-caller-changed"
  ELSE IF "id" \in DOMAIN e /\ e.id # 0 THEN "answer-is-a-value-the-caller-already-holds"
  ELSE "ok"

Event(e) ==
  CASE e.op = "begin" -> /\ objs' = <<>> /\ heap' = <<>> /\ ref' = e.refs /\ bad' = bad
    [] e.op = "new" -> /\ objs' = Append(objs, e.v) /\ UNCHANGED <<heap, ref, bad>>
    [] e.op = "clone" ->
         /\ objs' = Append(objs, objs[e.of]) /\ UNCHANGED <<heap, ref>>
         /\ IF e.v = objs[e.of] THEN bad' = bad
            ELSE PrintT("@@FAIL " \o ToString(i) \o " clone-differs") /\ bad' = bad + 1
    [] e.op = "cell" -> /\ heap' = Given(heap, e.val) /\ UNCHANGED <<objs, ref, bad>>
    [] e.op = "poke" -> /\ heap' = Poked(heap, e.c, e.val) /\ UNCHANGED <<objs, ref, bad>>
    [] e.op = "call" ->
         /\ UNCHANGED <<objs, ref>>
         /\ LET v == CallVerdict(e) IN
              IF v = "ok" THEN bad' = bad
              ELSE PrintT("@@FAIL " \o ToString(i) \o " " \o v) /\ bad' = bad + 1
         \* after a disagreement go on with what was seen
         /\ heap' = LET h == IF "seen" \in DOMAIN e THEN e.seen ELSE heap
                    IN IF e.keep THEN Given(h, e.ans) ELSE h

Step == /\ i <= Len(Tr) /\ Event(Tr[i]) /\ i' = i + 1

Done ==
  /\ i = Len(Tr) + 1
  /\ PrintT("@@DONE " \o ToString(Len(Tr) - 1) \o " " \o ToString(bad))
  /\ i' = i + 1
  /\ UNCHANGED <<bad, objs, heap, ref>>

Next == Step \/ Done
=============================================================================
