----------------------------- MODULE HooksTrace -----------------------------
(***************************************************************************)
(* Conformance: executions of src/sighook.c under a controlled scheduler,    *)
(* with signals at every scheduling point, as behaviours of Hooks.            *)
(* A case: [ign, cau, st, ev]; st is how the process ended: 0, or a signal.    *)
(***************************************************************************)
EXTENDS Hooks, TLC, CaseData

VARIABLES id, i, g
vars == <<id, i, g>>
T == Cases[id]
SetOf(s) == {s[k] : k \in 1..Len(s)}

Init == id \in 1..Len(Cases) /\ i = 1 /\ g = NewHooks(SetOf(T.ign), SetOf(T.cau))

Do(e) ==
    /\ ~g.fault
    /\ CASE e.o = "regB"  -> g' = RegBegin(g, e.h, e.s, e.c, e.one)
         [] e.o = "regE"  -> MayRegEnd(g, e.h, e.ok, e.fail) /\ g' = RegEnd(g, e.h, e.ok)
         [] e.o = "unB"   -> g' = UnBegin(g, e.h)
         [] e.o = "unE"   -> g' = UnEnd(g, e.h)
         [] e.o = "delB"  -> g' = DelBegin(g, e.d, e.s)
         [] e.o = "run"   -> e.s = e.i /\ MayRun(g, e.d, e.h, e.s) /\ g' = Run(g, e.d, e.h)
         [] e.o = "delE"  -> MayDelEnd(g, e.d, e.e = 1) /\ g' = DelEnd(g, e.d)
         [] e.o = "fault" -> g' = Fault(g)
         [] e.o = "reset" -> e.ok = 1 /\ g' = g
         [] e.o = "end"   -> (\A n \in DOMAIN g.d : ~g.d[n].open) /\ g' = g
         [] OTHER -> FALSE

Next == i <= Len(T.ev) /\ Do(T.ev[i]) /\ i' = i + 1 /\ UNCHANGED id
Spec == Init /\ [][Next]_vars

Complete == IF T.st = 0 THEN Len(T.ev) > 0 /\ T.ev[Len(T.ev)].o = "end" ELSE MayDie(g, T.st)
Accept == IF i > Len(T.ev)
          THEN IF Complete THEN PrintT(<<"ACCEPT", id>>) ELSE PrintT(<<"DIFFER", id, T.st, g>>)
          ELSE ENABLED Next \/ PrintT(<<"DIFFER", id, i, T.ev[i], g>>)
=============================================================================
