------------------------------- MODULE Trace --------------------------------
(* Trace validation: reads the events recorded from the implementation (one   *)
(* JSON object per line; the first names the Grassmannians) and decides each  *)
(* against the contract.  A violated event is reported and the trace          *)
(* continues, so that one run reports every violation.                        *)
EXTENDS Contract, Json, IOUtils

VARIABLES i, bad
vars == <<i, bad>>

\* the trace and the context are constants of the run; they are kept in TLC
\* registers so that states stay small (one worker)
Tr  == TLCGet(1)
Ctx == TLCGet(2)

Context(h) ==
  [ X |-> [j \in 1 .. Len(h.grs) |-> FromArgs(h.grs[j].fam, h.grs[j].m, h.grs[j].N)],
    T |-> [j \in 1 .. Len(h.grs) |->
             LET X == FromArgs(h.grs[j].fam, h.grs[j].m, h.grs[j].N)
             IN TLCEval([c |-> IF h.grs[j].c THEN MulTable(X, FALSE) ELSE <<>>,
                         q |-> IF h.grs[j].q THEN MulTable(X, TRUE) ELSE <<>>])] ]

Init ==
  /\ TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
  /\ TLCSet(2, TLCEval(Context(TLCGet(1)[1])))
  /\ i = atoi(IOEnv.START)
  /\ bad = 0

Step ==
  /\ i <= Len(Tr)
  /\ LET v == Verdict(Ctx, Tr[i])
     IN /\ v # "ok" => PrintT("@@FAIL " \o ToString(i) \o " " \o v)
        /\ bad' = IF v = "ok" THEN bad ELSE bad + 1
  /\ i' = i + 1

Done ==
  /\ i = Len(Tr) + 1
  /\ PrintT("@@DONE " \o ToString(Len(Tr) - 1) \o " " \o ToString(bad))
  /\ i' = i + 1
  /\ UNCHANGED bad

Next == Step \/ Done
=============================================================================
