-------------------------------- MODULE Ioq ---------------------------------
(***************************************************************************)
(* What the asynchronous I/O queue (src/ioq.c) promises its caller: a        *)
(* request is accepted or refused; an accepted one is carried out at most    *)
(* once; it is given back exactly once, with its own result; cancelling and  *)
(* shutting down lose nothing, and requests to close something are always    *)
(* carried out.                                                              *)
(*                                                                          *)
(* q.rq[k]: [op, s, r, u, v]: v is the answer to the request                   *)
(*    s  "new" accepted, "done" carried out with result r, "back" returned    *)
(*    u  an opened directory was closed again by the queue itself             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EINTR == 4
EAGAIN == 11

NewQueue(depth) == [depth |-> depth, out |-> 0, cancel |-> FALSE, rq |-> <<>>]
Closing(op) == op \in {"c", "d"}
Known(q, k) == k \in 1..Len(q.rq)

(* The answer to a request: 0 or an error number.                            *)
Verdict(q) == IF q.cancel THEN EINTR ELSE IF q.out >= q.depth THEN EAGAIN ELSE 0
Request(q, op) ==
    IF Verdict(q) = 0
    THEN [q EXCEPT !.out = @ + 1, !.rq = Append(@, [op |-> op, s |-> "new", r |-> 0, u |-> FALSE, v |-> 0])]
    ELSE [q EXCEPT !.rq = Append(@, [op |-> op, s |-> "refused", r |-> 0, u |-> FALSE, v |-> Verdict(q)])]
Capacity(q) == q.depth - q.out

(* A thread carries request k out.                                           *)
MayExec(q, k) == Known(q, k) /\ q.rq[k].s = "new"
Exec(q, k, r) == [q EXCEPT !.rq[k].s = "done", !.rq[k].r = r]
(* It closes a directory it just opened, because of a cancellation.           *)
MayUndo(q, k) == Known(q, k) /\ q.cancel /\ q.rq[k].op = "o" /\ q.rq[k].s = "done" /\ q.rq[k].r = 0 /\ ~q.rq[k].u
Undo(q, k) == [q EXCEPT !.rq[k].u = TRUE]

(* Request k comes back with result r.                                        *)
MayReturn(q, k, r) ==
    /\ Known(q, k)
    /\ LET e == q.rq[k]
       IN \/ e.s = "done" /\ ~e.u /\ r = e.r
          \/ e.s = "done" /\ e.u /\ r = -EINTR
          \/ e.s = "new" /\ e.op = "n" /\ r = 0
          \/ e.s = "new" /\ q.cancel /\ ~Closing(e.op) /\ r = -EINTR
Return(q, k) == [q EXCEPT !.rq[k].s = "back", !.out = @ - 1]
(* Nothing comes back: only if nothing is outstanding, or the caller would not wait. *)
MayReturnNothing(q, block) == q.out = 0 \/ ~block

Cancel(q) == [q EXCEPT !.cancel = TRUE]
(* When the queue is gone, nothing that had to be carried out was forgotten.   *)
Finished(q) == \A k \in 1..Len(q.rq) :
    Closing(q.rq[k].op) /\ q.rq[k].s # "refused" => q.rq[k].s \in {"done", "back"}
=============================================================================
