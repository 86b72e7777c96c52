------------------------------ MODULE IoqTrace ------------------------------
(***************************************************************************)
(* Conformance: executions of src/ioq.c under a controlled scheduler, as     *)
(* behaviours of Ioq.  A case: [depth, st, ev]; an event: [o, k, r, ...].     *)
(***************************************************************************)
EXTENDS Ioq, TLC, CaseData

VARIABLES id, i, q
vars == <<id, i, q>>
T == Cases[id]

Init == id \in 1..Len(Cases) /\ i = 1 /\ q = NewQueue(T.depth)

Do(e) ==
    CASE e.o = "ask"    -> e.k = Len(q.rq) + 1 /\ e.c = Capacity(q) /\ q' = Request(q, e.op)
      [] e.o = "req"    -> Known(q, e.k) /\ e.r = q.rq[e.k].v /\ q' = q
      [] e.o = "exec"   -> MayExec(q, e.k) /\ q' = Exec(q, e.k, e.r)
      [] e.o = "undo"   -> MayUndo(q, e.k) /\ q' = Undo(q, e.k)
      [] e.o = "pop"    -> MayReturn(q, e.k, e.r) /\ q' = Return(q, e.k)
      [] e.o = "none"   -> MayReturnNothing(q, e.k = 1) /\ q' = q
      [] e.o \in {"cancel", "destroy"} -> q' = Cancel(q)
      [] e.o = "end"    -> Finished(q) /\ q' = q
      [] e.o \in {"submit", "call"} -> q' = q
      [] OTHER -> FALSE

Next == i <= Len(T.ev) /\ Do(T.ev[i]) /\ i' = i + 1 /\ UNCHANGED id
Spec == Init /\ [][Next]_vars

Complete == T.st = "ok" /\ Len(T.ev) > 0 /\ T.ev[Len(T.ev)].o = "end"
Accept == IF i > Len(T.ev)
          THEN IF Complete THEN PrintT(<<"ACCEPT", id>>) ELSE PrintT(<<"DIFFER", id, T.st>>)
          ELSE ENABLED Next \/ PrintT(<<"DIFFER", id, i, T.ev[i], q>>)
=============================================================================
