------------------------------- MODULE Hooks --------------------------------
(***************************************************************************)
(* What src/sighook.c promises: which hooks a signal runs, in which order,   *)
(* and what becomes of the process.  Calls take time (they begin and end),   *)
(* and signals may arrive at any moment in any thread.                        *)
(*                                                                          *)
(* g.h[n]   a hook: [s, c, one, st, b, e, fired, cl]                           *)
(*     s    its signal (0: the exit hooks); c: ask to continue; one: one-shot *)
(*     st   "adding", "in", "removing", "out"                                 *)
(*     b, e when its registration began and ended (0: not yet)                *)
(*     cl   for a one-shot hook that a delivery left out: the deliveries of    *)
(*          which one must be about to run it                                 *)
(* g.d[n]   a delivery: [s, old, ran, inst, open]: hooks that were in when it  *)
(*          began, those that it ran, whether our handler was in place         *)
(* g.inst   signals that certainly have our handler; g.may: that may have it   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* signal(7): what a signal does by default *)
IgnoredByDefault == {17, 18, 23, 28}
Stopping == {19, 20, 21, 22}
Uncatchable == {9, 19}
Reserved == {32, 33}           \* by the C library
Fatal(s) == s \in (1..64) \ (IgnoredByDefault \cup Stopping)
AllFatal == {s \in 1..64 : Fatal(s) /\ s \notin Uncatchable \cup Reserved}

NewHooks(ignored, caught) ==
    [h |-> <<>>, d |-> <<>>, now |-> 1, inst |-> {}, may |-> {}, ign |-> ignored, cau |-> caught, fault |-> FALSE]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Sigs(s) == IF s = 0 THEN AllFatal ELSE {s}
Tick(g) == [g EXCEPT !.now = @ + 1]

(* Registration                                                              *)
RegBegin(g, n, s, c, one) ==
    Tick([g EXCEPT !.h = Put(@, n, [s |-> s, c |-> c, one |-> one, st |-> "adding", b |-> g.now, e |-> 0, fired |-> FALSE, cl |-> {}]),
                   !.may = @ \cup Sigs(s)])
MayRegEnd(g, n, ok, fail) == ok \/ fail \/ g.h[n].s > 64 \/ g.h[n].s \in Uncatchable \cup Reserved
RegEnd(g, n, ok) ==
    Tick(IF ok THEN [g EXCEPT !.h[n].st = "in", !.h[n].e = g.now, !.inst = @ \cup Sigs(g.h[n].s)]
         ELSE [g EXCEPT !.h[n].st = "out"])
UnBegin(g, n) == Tick([g EXCEPT !.h[n].st = "removing"])
UnEnd(g, n) == Tick([g EXCEPT !.h[n].st = "out"])

(* Delivery                                                                  *)
DelBegin(g, n, s) ==
    Tick([g EXCEPT !.d = Put(@, n,
        [s |-> s, old |-> {k \in DOMAIN g.h : g.h[k].st = "in" /\ g.h[k].s \in {0, s}}, ran |-> <<>>, open |-> TRUE,
         inst |-> IF s \in g.inst THEN "yes" ELSE IF s \in g.may THEN "maybe" ELSE "no"])])
Ran(d) == {d.ran[k] : k \in 1..Len(d.ran)}
Continued(g, d) == \E k \in Ran(d) : g.h[k].c
(* the registration of j was over before that of k began *)
Before(g, j, k) == g.h[j].e # 0 /\ g.h[j].e < g.h[k].b
MayRun(g, n, k, s) ==
    /\ n \in DOMAIN g.d /\ k \in DOMAIN g.h
    /\ LET d == g.d[n]
           h == g.h[k]
       IN /\ d.open /\ d.inst # "no" /\ d.s = s
          /\ h.st \in {"adding", "in", "removing"} /\ h.s \in {0, s}
          /\ k \notin Ran(d)
          /\ h.one => ~h.fired /\ (h.cl = {} \/ n \in h.cl)
          \* exit hooks come last, if the process is about to end; of one list, the oldest is first
          /\ h.s = 0 => Fatal(s) /\ ~Continued(g, d)
          /\ h.s # 0 => \A j \in Ran(d) : g.h[j].s # 0
          /\ \A j \in Ran(d) : g.h[j].s = h.s => ~Before(g, k, j)
Run(g, n, k) == Tick([g EXCEPT !.d[n].ran = Append(@, k), !.h[k].fired = TRUE])

(* Deliveries that may be about to run one-shot hook k, other than n           *)
Claims(g, n, k) == (IF g.h[k].cl # {} THEN g.h[k].cl ELSE {m \in DOMAIN g.d : g.d[m].open /\ g.d[m].s = g.h[k].s /\ g.d[m].inst # "no"}) \ {n}
Left(g, n) == {k \in g.d[n].old : g.h[k].one /\ ~g.h[k].fired /\ g.h[k].st = "in" /\ g.h[k].s # 0}
(* Every hook that was there all along has run.                               *)
Satisfied(g, n, sigs) ==
    LET d == g.d[n]
    IN \A k \in d.old : (g.h[k].s \in sigs /\ g.h[k].st = "in") =>
        k \in Ran(d) \/ (g.h[k].one /\ (g.h[k].fired \/ Claims(g, n, k) # {}))
MayDelEnd(g, n, kept) ==
    LET d == g.d[n]
    IN /\ d.open /\ kept
       /\ \/ d.inst # "yes" /\ (d.s \in g.ign \cup g.cau \/ ~Fatal(d.s)) /\ Ran(d) = {}
          \/ d.inst # "no" /\ Satisfied(g, n, {d.s}) /\ (Fatal(d.s) => Continued(g, d))
DelEnd(g, n) == Tick([g EXCEPT !.d[n].open = FALSE,
    !.h = [k \in DOMAIN @ |-> IF k \in Left(g, n) THEN [@[k] EXCEPT !.cl = Claims(g, n, k)] ELSE @[k]]])

(* The process ended by signal s.                                             *)
MayDie(g, s) ==
    \/ g.fault /\ s = 11 /\ \A n \in DOMAIN g.d : ~g.d[n].open
    \/ ~g.fault /\ \E n \in DOMAIN g.d :
        LET d == g.d[n]
        IN /\ d.open /\ d.s = s /\ Fatal(s)
           /\ \/ d.inst # "yes" /\ s \notin g.ign \cup g.cau /\ Ran(d) = {}
              \/ d.inst # "no" /\ Satisfied(g, n, {0, s}) /\ ~Continued(g, d)
Fault(g) == [g EXCEPT !.fault = TRUE]
=============================================================================
