------------------------------ MODULE IoqModel ------------------------------
(***************************************************************************)
(* The algorithm of src/ioq.c (worker threads with synchronous system calls) *)
(* at the granularity of its atomic operations and locks: circular buffers   *)
(* whose slots are empty, full or to be skipped, indices taken by            *)
(* fetch-and-add, monitors with the BLOCKED flag, batches, and the stop       *)
(* sentinel.  TLC explores every interleaving of the main thread and the      *)
(* workers: nothing is lost or duplicated (the promises of Ioq), there is no  *)
(* deadlock, and everything terminates.                                       *)
(*                                                                          *)
(* N slots per queue, batches of B, W workers, R requests.  If Early, the     *)
(* main thread cancels before it waits for anything.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, B, W, R, Early
Queues == {"p", "r"}
Slots == 0..N-1
STOP == R + 1
NONE == -1
Workers == 1..W
Val(t, v, b) == [t |-> t, v |-> v, b |-> b]
Empty == Val("e", 0, FALSE)
(* push: empty -> full, skip(n) -> skip(n-1) *)
Pushed(x, e) == IF x.t = "e" THEN Val("f", e, FALSE)
                ELSE IF x.v = 1 THEN Empty ELSE Val("s", x.v - 1, FALSE)
(* pop: full -> empty, empty -> skip(1), skip(n) -> skip(n+1) *)
Popped(x) == IF x.t = "f" THEN Empty ELSE IF x.t = "e" THEN Val("s", 1, FALSE) ELSE Val("s", x.v + 1, FALSE)

(* --algorithm ioq
variables
    slot = [q \in Queues |-> [i \in Slots |-> Empty]],
    head = [q \in Queues |-> 0], tail = [q \in Queues |-> 0],
    lock = [q \in Queues |-> [i \in Slots |-> NONE]],
    asleep = [q \in Queues |-> [i \in Slots |-> {}]],
    cancelled = FALSE,
    got = [x \in 0..W |-> <<>>],   \* entries popped
    ran = [k \in 1..R |-> 0], back = [k \in 1..R |-> 0];

define
    AtMostOnce == \A k \in 1..R : ran[k] <= 1 /\ back[k] <= 1
    OnlyAfter == \A k \in 1..R : back[k] = 1 => ran[k] = 1 \/ cancelled
end define;

\* ioq_slot_wait(): returns when the slot differs from wv
procedure wait(wq = "p", ws = 0, wv = Empty)
begin
w1: if slot[wq][ws] # wv then return; end if;
w2: await lock[wq][ws] = NONE; lock[wq][ws] := self;
w3: if slot[wq][ws] # wv then goto w7; end if;
w4: if ~wv.b then
        if slot[wq][ws] # wv then goto w7;
        else wv.b := TRUE || slot[wq][ws] := Val(wv.t, wv.v, TRUE);
        end if;
    end if;
w5: lock[wq][ws] := NONE; asleep[wq][ws] := asleep[wq][ws] \cup {self};
w6: await self \notin asleep[wq][ws] /\ lock[wq][ws] = NONE;
    lock[wq][ws] := self;
w6a: if slot[wq][ws] = wv then goto w5; end if;
w7: lock[wq][ws] := NONE;
    return;
end procedure;

\* ioq_slot_wake()
procedure wake(kq = "p", ks = 0)
begin
k1: await lock[kq][ks] = NONE; lock[kq][ks] := self;
k2: lock[kq][ks] := NONE;
k3: asleep[kq][ks] := {};
    return;
end procedure;

\* ioqq_push_batch(): push the entries of pb
procedure push(pq = "p", pb = <<>>)
variables pi = 0, pj = 0, pv = Empty;
begin
p1: while pb # <<>> do
        pi := head[pq] || pj := head[pq] + Len(pb) || head[pq] := head[pq] + Len(pb);
p2:     while pi # pj do
            pv := slot[pq][pi % N];
p3:         if pv.t = "f" then
                call wait(pq, pi % N, pv);
p4:             goto p2;
            elsif slot[pq][pi % N] = pv then
                slot[pq][pi % N] := Pushed(pv, Head(pb));
                if pv.t = "e" then pb := Tail(pb); end if;
                pi := pi + 1;
                if pv.b then call wake(pq, (pi - 1) % N); end if;
            else
                goto p2;
            end if;
        end while;
    end while;
    return;
end procedure;

\* ioqq_pop_batch(): the entries found are left in got[self]
procedure pop(oq = "p")
variables oi = 0, oj = 0, ov = Empty, ob = TRUE;
begin
o1: oi := tail[oq] || oj := tail[oq] + B || tail[oq] := tail[oq] + B;
    got[self] := <<>>;
o2: while oi # oj do
        ov := slot[oq][oi % N];
o3:     if ob /\ ov.t # "f" then
            call wait(oq, oi % N, ov);
o4:         goto o2;
        elsif slot[oq][oi % N] = ov then
            slot[oq][oi % N] := Popped(ov);
            if ov.t = "f" then got[self] := Append(got[self], ov.v); end if;
            ob := FALSE;
            oi := oi + 1;
            if ov.b then call wake(oq, (oi - 1) % N); end if;
        else
            goto o2;
        end if;
    end while;
    return;
end procedure;

fair process worker \in Workers
variables ready = <<>>, stop = FALSE;
begin
a1: while ~stop do
        if ready # <<>> then call push("r", ready); end if;
a2:     ready := <<>>;
        call pop("p");
a3:     while got[self] # <<>> do
            if Head(got[self]) = STOP then
                stop := TRUE;
            else
                \* (after a cancellation the request may not be carried out)
                either
                    ran[Head(got[self])] := ran[Head(got[self])] + 1;
                or
                    await cancelled;
                end either;
                ready := Append(ready, Head(got[self]));
            end if;
            got[self] := Tail(got[self]);
        end while;
    end while;
a4: call push("p", <<STOP>>);
a5: if ready # <<>> then call push("r", ready); end if;
a6: skip;
end process;

fair process main \in {0}
variables sent = 0, done = 0;
begin
m1: while sent < R do
        \* submit one or two requests at a time
        with n \in {x \in 1..2 : sent + x <= R} do
            sent := sent + n;
            call push("p", [x \in 1..n |-> sent - n + x]);
        end with;
m2:     if Early then skip;
        else
            either skip;
            or
                await done < sent;
                call pop("r");
m3:             while got[self] # <<>> do
                    back[Head(got[self])] := back[Head(got[self])] + 1 || done := done + 1 || got[self] := Tail(got[self]);
                end while;
            end either;
        end if;
    end while;
m4: if Early then
        cancelled := TRUE;
        call push("p", <<STOP>>);
    end if;
m5: while done < sent do
        call pop("r");
m6:     while got[self] # <<>> do
            back[Head(got[self])] := back[Head(got[self])] + 1 || done := done + 1 || got[self] := Tail(got[self]);
        end while;
    end while;
m7: if ~Early then
        cancelled := TRUE;
        call push("p", <<STOP>>);
    end if;
m8: await \A w \in Workers : pc[w] = "Done";
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "d7e1f64e" /\ chksum(tla) = "a1a1613d")
VARIABLES pc, slot, head, tail, lock, asleep, cancelled, got, ran, back, 
          stack

(* define statement *)
AtMostOnce == \A k \in 1..R : ran[k] <= 1 /\ back[k] <= 1
OnlyAfter == \A k \in 1..R : back[k] = 1 => ran[k] = 1 \/ cancelled

VARIABLES wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, oq, oi, oj, ov, ob, ready, 
          stop, sent, done

vars == << pc, slot, head, tail, lock, asleep, cancelled, got, ran, back, 
           stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, oq, oi, oj, ov, ob, 
           ready, stop, sent, done >>

ProcSet == (Workers) \cup ({0})

Init == (* Global variables *)
        /\ slot = [q \in Queues |-> [i \in Slots |-> Empty]]
        /\ head = [q \in Queues |-> 0]
        /\ tail = [q \in Queues |-> 0]
        /\ lock = [q \in Queues |-> [i \in Slots |-> NONE]]
        /\ asleep = [q \in Queues |-> [i \in Slots |-> {}]]
        /\ cancelled = FALSE
        /\ got = [x \in 0..W |-> <<>>]
        /\ ran = [k \in 1..R |-> 0]
        /\ back = [k \in 1..R |-> 0]
        (* Procedure wait *)
        /\ wq = [ self \in ProcSet |-> "p"]
        /\ ws = [ self \in ProcSet |-> 0]
        /\ wv = [ self \in ProcSet |-> Empty]
        (* Procedure wake *)
        /\ kq = [ self \in ProcSet |-> "p"]
        /\ ks = [ self \in ProcSet |-> 0]
        (* Procedure push *)
        /\ pq = [ self \in ProcSet |-> "p"]
        /\ pb = [ self \in ProcSet |-> <<>>]
        /\ pi = [ self \in ProcSet |-> 0]
        /\ pj = [ self \in ProcSet |-> 0]
        /\ pv = [ self \in ProcSet |-> Empty]
        (* Procedure pop *)
        /\ oq = [ self \in ProcSet |-> "p"]
        /\ oi = [ self \in ProcSet |-> 0]
        /\ oj = [ self \in ProcSet |-> 0]
        /\ ov = [ self \in ProcSet |-> Empty]
        /\ ob = [ self \in ProcSet |-> TRUE]
        (* Process worker *)
        /\ ready = [self \in Workers |-> <<>>]
        /\ stop = [self \in Workers |-> FALSE]
        (* Process main *)
        /\ sent = [self \in {0} |-> 0]
        /\ done = [self \in {0} |-> 0]
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self \in Workers -> "a1"
                                        [] self \in {0} -> "m1"]

w1(self) == /\ pc[self] = "w1"
            /\ IF slot[wq[self]][ws[self]] # wv[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ wq' = [wq EXCEPT ![self] = Head(stack[self]).wq]
                       /\ ws' = [ws EXCEPT ![self] = Head(stack[self]).ws]
                       /\ wv' = [wv EXCEPT ![self] = Head(stack[self]).wv]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w2"]
                       /\ UNCHANGED << stack, wq, ws, wv >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, kq, ks, pq, pb, pi, pj, pv, oq, oi, oj, 
                            ov, ob, ready, stop, sent, done >>

w2(self) == /\ pc[self] = "w2"
            /\ lock[wq[self]][ws[self]] = NONE
            /\ lock' = [lock EXCEPT ![wq[self]][ws[self]] = self]
            /\ pc' = [pc EXCEPT ![self] = "w3"]
            /\ UNCHANGED << slot, head, tail, asleep, cancelled, got, ran, 
                            back, stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, 
                            pv, oq, oi, oj, ov, ob, ready, stop, sent, done >>

w3(self) == /\ pc[self] = "w3"
            /\ IF slot[wq[self]][ws[self]] # wv[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "w7"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w4"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, stack, wq, ws, wv, kq, ks, pq, pb, pi, 
                            pj, pv, oq, oi, oj, ov, ob, ready, stop, sent, 
                            done >>

w4(self) == /\ pc[self] = "w4"
            /\ IF ~wv[self].b
                  THEN /\ IF slot[wq[self]][ws[self]] # wv[self]
                             THEN /\ pc' = [pc EXCEPT ![self] = "w7"]
                                  /\ UNCHANGED << slot, wv >>
                             ELSE /\ /\ slot' = [slot EXCEPT ![wq[self]][ws[self]] = Val(wv[self].t, wv[self].v, TRUE)]
                                     /\ wv' = [wv EXCEPT ![self].b = TRUE]
                                  /\ pc' = [pc EXCEPT ![self] = "w5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "w5"]
                       /\ UNCHANGED << slot, wv >>
            /\ UNCHANGED << head, tail, lock, asleep, cancelled, got, ran, 
                            back, stack, wq, ws, kq, ks, pq, pb, pi, pj, pv, 
                            oq, oi, oj, ov, ob, ready, stop, sent, done >>

w5(self) == /\ pc[self] = "w5"
            /\ lock' = [lock EXCEPT ![wq[self]][ws[self]] = NONE]
            /\ asleep' = [asleep EXCEPT ![wq[self]][ws[self]] = asleep[wq[self]][ws[self]] \cup {self}]
            /\ pc' = [pc EXCEPT ![self] = "w6"]
            /\ UNCHANGED << slot, head, tail, cancelled, got, ran, back, stack, 
                            wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, oq, oi, oj, 
                            ov, ob, ready, stop, sent, done >>

w6(self) == /\ pc[self] = "w6"
            /\ self \notin asleep[wq[self]][ws[self]] /\ lock[wq[self]][ws[self]] = NONE
            /\ lock' = [lock EXCEPT ![wq[self]][ws[self]] = self]
            /\ pc' = [pc EXCEPT ![self] = "w6a"]
            /\ UNCHANGED << slot, head, tail, asleep, cancelled, got, ran, 
                            back, stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, 
                            pv, oq, oi, oj, ov, ob, ready, stop, sent, done >>

w6a(self) == /\ pc[self] = "w6a"
             /\ IF slot[wq[self]][ws[self]] = wv[self]
                   THEN /\ pc' = [pc EXCEPT ![self] = "w5"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "w7"]
             /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                             ran, back, stack, wq, ws, wv, kq, ks, pq, pb, pi, 
                             pj, pv, oq, oi, oj, ov, ob, ready, stop, sent, 
                             done >>

w7(self) == /\ pc[self] = "w7"
            /\ lock' = [lock EXCEPT ![wq[self]][ws[self]] = NONE]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ wq' = [wq EXCEPT ![self] = Head(stack[self]).wq]
            /\ ws' = [ws EXCEPT ![self] = Head(stack[self]).ws]
            /\ wv' = [wv EXCEPT ![self] = Head(stack[self]).wv]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << slot, head, tail, asleep, cancelled, got, ran, 
                            back, kq, ks, pq, pb, pi, pj, pv, oq, oi, oj, ov, 
                            ob, ready, stop, sent, done >>

wait(self) == w1(self) \/ w2(self) \/ w3(self) \/ w4(self) \/ w5(self)
                 \/ w6(self) \/ w6a(self) \/ w7(self)

k1(self) == /\ pc[self] = "k1"
            /\ lock[kq[self]][ks[self]] = NONE
            /\ lock' = [lock EXCEPT ![kq[self]][ks[self]] = self]
            /\ pc' = [pc EXCEPT ![self] = "k2"]
            /\ UNCHANGED << slot, head, tail, asleep, cancelled, got, ran, 
                            back, stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, 
                            pv, oq, oi, oj, ov, ob, ready, stop, sent, done >>

k2(self) == /\ pc[self] = "k2"
            /\ lock' = [lock EXCEPT ![kq[self]][ks[self]] = NONE]
            /\ pc' = [pc EXCEPT ![self] = "k3"]
            /\ UNCHANGED << slot, head, tail, asleep, cancelled, got, ran, 
                            back, stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, 
                            pv, oq, oi, oj, ov, ob, ready, stop, sent, done >>

k3(self) == /\ pc[self] = "k3"
            /\ asleep' = [asleep EXCEPT ![kq[self]][ks[self]] = {}]
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ kq' = [kq EXCEPT ![self] = Head(stack[self]).kq]
            /\ ks' = [ks EXCEPT ![self] = Head(stack[self]).ks]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << slot, head, tail, lock, cancelled, got, ran, back, 
                            wq, ws, wv, pq, pb, pi, pj, pv, oq, oi, oj, ov, ob, 
                            ready, stop, sent, done >>

wake(self) == k1(self) \/ k2(self) \/ k3(self)

p1(self) == /\ pc[self] = "p1"
            /\ IF pb[self] # <<>>
                  THEN /\ /\ head' = [head EXCEPT ![pq[self]] = head[pq[self]] + Len(pb[self])]
                          /\ pi' = [pi EXCEPT ![self] = head[pq[self]]]
                          /\ pj' = [pj EXCEPT ![self] = head[pq[self]] + Len(pb[self])]
                       /\ pc' = [pc EXCEPT ![self] = "p2"]
                       /\ UNCHANGED << stack, pq, pb, pv >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ pi' = [pi EXCEPT ![self] = Head(stack[self]).pi]
                       /\ pj' = [pj EXCEPT ![self] = Head(stack[self]).pj]
                       /\ pv' = [pv EXCEPT ![self] = Head(stack[self]).pv]
                       /\ pq' = [pq EXCEPT ![self] = Head(stack[self]).pq]
                       /\ pb' = [pb EXCEPT ![self] = Head(stack[self]).pb]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
                       /\ head' = head
            /\ UNCHANGED << slot, tail, lock, asleep, cancelled, got, ran, 
                            back, wq, ws, wv, kq, ks, oq, oi, oj, ov, ob, 
                            ready, stop, sent, done >>

p2(self) == /\ pc[self] = "p2"
            /\ IF pi[self] # pj[self]
                  THEN /\ pv' = [pv EXCEPT ![self] = slot[pq[self]][pi[self] % N]]
                       /\ pc' = [pc EXCEPT ![self] = "p3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "p1"]
                       /\ pv' = pv
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, stack, wq, ws, wv, kq, ks, pq, pb, pi, 
                            pj, oq, oi, oj, ov, ob, ready, stop, sent, done >>

p3(self) == /\ pc[self] = "p3"
            /\ IF pv[self].t = "f"
                  THEN /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "wait",
                                                                   pc        |->  "p4",
                                                                   wq        |->  wq[self],
                                                                   ws        |->  ws[self],
                                                                   wv        |->  wv[self] ] >>
                                                               \o stack[self]]
                          /\ wq' = [wq EXCEPT ![self] = pq[self]]
                          /\ ws' = [ws EXCEPT ![self] = pi[self] % N]
                          /\ wv' = [wv EXCEPT ![self] = pv[self]]
                       /\ pc' = [pc EXCEPT ![self] = "w1"]
                       /\ UNCHANGED << slot, kq, ks, pb, pi >>
                  ELSE /\ IF slot[pq[self]][pi[self] % N] = pv[self]
                             THEN /\ slot' = [slot EXCEPT ![pq[self]][pi[self] % N] = Pushed(pv[self], Head(pb[self]))]
                                  /\ IF pv[self].t = "e"
                                        THEN /\ pb' = [pb EXCEPT ![self] = Tail(pb[self])]
                                        ELSE /\ TRUE
                                             /\ pb' = pb
                                  /\ pi' = [pi EXCEPT ![self] = pi[self] + 1]
                                  /\ IF pv[self].b
                                        THEN /\ /\ kq' = [kq EXCEPT ![self] = pq[self]]
                                                /\ ks' = [ks EXCEPT ![self] = (pi'[self] - 1) % N]
                                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "wake",
                                                                                         pc        |->  "p2",
                                                                                         kq        |->  kq[self],
                                                                                         ks        |->  ks[self] ] >>
                                                                                     \o stack[self]]
                                             /\ pc' = [pc EXCEPT ![self] = "k1"]
                                        ELSE /\ pc' = [pc EXCEPT ![self] = "p2"]
                                             /\ UNCHANGED << stack, kq, ks >>
                             ELSE /\ pc' = [pc EXCEPT ![self] = "p2"]
                                  /\ UNCHANGED << slot, stack, kq, ks, pb, pi >>
                       /\ UNCHANGED << wq, ws, wv >>
            /\ UNCHANGED << head, tail, lock, asleep, cancelled, got, ran, 
                            back, pq, pj, pv, oq, oi, oj, ov, ob, ready, stop, 
                            sent, done >>

p4(self) == /\ pc[self] = "p4"
            /\ pc' = [pc EXCEPT ![self] = "p2"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, stack, wq, ws, wv, kq, ks, pq, pb, pi, 
                            pj, pv, oq, oi, oj, ov, ob, ready, stop, sent, 
                            done >>

push(self) == p1(self) \/ p2(self) \/ p3(self) \/ p4(self)

o1(self) == /\ pc[self] = "o1"
            /\ /\ oi' = [oi EXCEPT ![self] = tail[oq[self]]]
               /\ oj' = [oj EXCEPT ![self] = tail[oq[self]] + B]
               /\ tail' = [tail EXCEPT ![oq[self]] = tail[oq[self]] + B]
            /\ got' = [got EXCEPT ![self] = <<>>]
            /\ pc' = [pc EXCEPT ![self] = "o2"]
            /\ UNCHANGED << slot, head, lock, asleep, cancelled, ran, back, 
                            stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, oq, 
                            ov, ob, ready, stop, sent, done >>

o2(self) == /\ pc[self] = "o2"
            /\ IF oi[self] # oj[self]
                  THEN /\ ov' = [ov EXCEPT ![self] = slot[oq[self]][oi[self] % N]]
                       /\ pc' = [pc EXCEPT ![self] = "o3"]
                       /\ UNCHANGED << stack, oq, oi, oj, ob >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
                       /\ oi' = [oi EXCEPT ![self] = Head(stack[self]).oi]
                       /\ oj' = [oj EXCEPT ![self] = Head(stack[self]).oj]
                       /\ ov' = [ov EXCEPT ![self] = Head(stack[self]).ov]
                       /\ ob' = [ob EXCEPT ![self] = Head(stack[self]).ob]
                       /\ oq' = [oq EXCEPT ![self] = Head(stack[self]).oq]
                       /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, 
                            ready, stop, sent, done >>

o3(self) == /\ pc[self] = "o3"
            /\ IF ob[self] /\ ov[self].t # "f"
                  THEN /\ /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "wait",
                                                                   pc        |->  "o4",
                                                                   wq        |->  wq[self],
                                                                   ws        |->  ws[self],
                                                                   wv        |->  wv[self] ] >>
                                                               \o stack[self]]
                          /\ wq' = [wq EXCEPT ![self] = oq[self]]
                          /\ ws' = [ws EXCEPT ![self] = oi[self] % N]
                          /\ wv' = [wv EXCEPT ![self] = ov[self]]
                       /\ pc' = [pc EXCEPT ![self] = "w1"]
                       /\ UNCHANGED << slot, got, kq, ks, oi, ob >>
                  ELSE /\ IF slot[oq[self]][oi[self] % N] = ov[self]
                             THEN /\ slot' = [slot EXCEPT ![oq[self]][oi[self] % N] = Popped(ov[self])]
                                  /\ IF ov[self].t = "f"
                                        THEN /\ got' = [got EXCEPT ![self] = Append(got[self], ov[self].v)]
                                        ELSE /\ TRUE
                                             /\ got' = got
                                  /\ ob' = [ob EXCEPT ![self] = FALSE]
                                  /\ oi' = [oi EXCEPT ![self] = oi[self] + 1]
                                  /\ IF ov[self].b
                                        THEN /\ /\ kq' = [kq EXCEPT ![self] = oq[self]]
                                                /\ ks' = [ks EXCEPT ![self] = (oi'[self] - 1) % N]
                                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "wake",
                                                                                         pc        |->  "o2",
                                                                                         kq        |->  kq[self],
                                                                                         ks        |->  ks[self] ] >>
                                                                                     \o stack[self]]
                                             /\ pc' = [pc EXCEPT ![self] = "k1"]
                                        ELSE /\ pc' = [pc EXCEPT ![self] = "o2"]
                                             /\ UNCHANGED << stack, kq, ks >>
                             ELSE /\ pc' = [pc EXCEPT ![self] = "o2"]
                                  /\ UNCHANGED << slot, got, stack, kq, ks, oi, 
                                                  ob >>
                       /\ UNCHANGED << wq, ws, wv >>
            /\ UNCHANGED << head, tail, lock, asleep, cancelled, ran, back, pq, 
                            pb, pi, pj, pv, oq, oj, ov, ready, stop, sent, 
                            done >>

o4(self) == /\ pc[self] = "o4"
            /\ pc' = [pc EXCEPT ![self] = "o2"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, stack, wq, ws, wv, kq, ks, pq, pb, pi, 
                            pj, pv, oq, oi, oj, ov, ob, ready, stop, sent, 
                            done >>

pop(self) == o1(self) \/ o2(self) \/ o3(self) \/ o4(self)

a1(self) == /\ pc[self] = "a1"
            /\ IF ~stop[self]
                  THEN /\ IF ready[self] # <<>>
                             THEN /\ /\ pb' = [pb EXCEPT ![self] = ready[self]]
                                     /\ pq' = [pq EXCEPT ![self] = "r"]
                                     /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                              pc        |->  "a2",
                                                                              pi        |->  pi[self],
                                                                              pj        |->  pj[self],
                                                                              pv        |->  pv[self],
                                                                              pq        |->  pq[self],
                                                                              pb        |->  pb[self] ] >>
                                                                          \o stack[self]]
                                  /\ pi' = [pi EXCEPT ![self] = 0]
                                  /\ pj' = [pj EXCEPT ![self] = 0]
                                  /\ pv' = [pv EXCEPT ![self] = Empty]
                                  /\ pc' = [pc EXCEPT ![self] = "p1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "a2"]
                                  /\ UNCHANGED << stack, pq, pb, pi, pj, pv >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a4"]
                       /\ UNCHANGED << stack, pq, pb, pi, pj, pv >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, oq, oi, oj, ov, ob, 
                            ready, stop, sent, done >>

a2(self) == /\ pc[self] = "a2"
            /\ ready' = [ready EXCEPT ![self] = <<>>]
            /\ /\ oq' = [oq EXCEPT ![self] = "p"]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "pop",
                                                        pc        |->  "a3",
                                                        oi        |->  oi[self],
                                                        oj        |->  oj[self],
                                                        ov        |->  ov[self],
                                                        ob        |->  ob[self],
                                                        oq        |->  oq[self] ] >>
                                                    \o stack[self]]
            /\ oi' = [oi EXCEPT ![self] = 0]
            /\ oj' = [oj EXCEPT ![self] = 0]
            /\ ov' = [ov EXCEPT ![self] = Empty]
            /\ ob' = [ob EXCEPT ![self] = TRUE]
            /\ pc' = [pc EXCEPT ![self] = "o1"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, 
                            stop, sent, done >>

a3(self) == /\ pc[self] = "a3"
            /\ IF got[self] # <<>>
                  THEN /\ IF Head(got[self]) = STOP
                             THEN /\ stop' = [stop EXCEPT ![self] = TRUE]
                                  /\ UNCHANGED << ran, ready >>
                             ELSE /\ \/ /\ ran' = [ran EXCEPT ![Head(got[self])] = ran[Head(got[self])] + 1]
                                     \/ /\ cancelled
                                        /\ ran' = ran
                                  /\ ready' = [ready EXCEPT ![self] = Append(ready[self], Head(got[self]))]
                                  /\ stop' = stop
                       /\ got' = [got EXCEPT ![self] = Tail(got[self])]
                       /\ pc' = [pc EXCEPT ![self] = "a3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a1"]
                       /\ UNCHANGED << got, ran, ready, stop >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, back, 
                            stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, oq, 
                            oi, oj, ov, ob, sent, done >>

a4(self) == /\ pc[self] = "a4"
            /\ /\ pb' = [pb EXCEPT ![self] = <<STOP>>]
               /\ pq' = [pq EXCEPT ![self] = "p"]
               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                        pc        |->  "a5",
                                                        pi        |->  pi[self],
                                                        pj        |->  pj[self],
                                                        pv        |->  pv[self],
                                                        pq        |->  pq[self],
                                                        pb        |->  pb[self] ] >>
                                                    \o stack[self]]
            /\ pi' = [pi EXCEPT ![self] = 0]
            /\ pj' = [pj EXCEPT ![self] = 0]
            /\ pv' = [pv EXCEPT ![self] = Empty]
            /\ pc' = [pc EXCEPT ![self] = "p1"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, oq, oi, oj, ov, ob, 
                            ready, stop, sent, done >>

a5(self) == /\ pc[self] = "a5"
            /\ IF ready[self] # <<>>
                  THEN /\ /\ pb' = [pb EXCEPT ![self] = ready[self]]
                          /\ pq' = [pq EXCEPT ![self] = "r"]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                   pc        |->  "a6",
                                                                   pi        |->  pi[self],
                                                                   pj        |->  pj[self],
                                                                   pv        |->  pv[self],
                                                                   pq        |->  pq[self],
                                                                   pb        |->  pb[self] ] >>
                                                               \o stack[self]]
                       /\ pi' = [pi EXCEPT ![self] = 0]
                       /\ pj' = [pj EXCEPT ![self] = 0]
                       /\ pv' = [pv EXCEPT ![self] = Empty]
                       /\ pc' = [pc EXCEPT ![self] = "p1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "a6"]
                       /\ UNCHANGED << stack, pq, pb, pi, pj, pv >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, oq, oi, oj, ov, ob, 
                            ready, stop, sent, done >>

a6(self) == /\ pc[self] = "a6"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, stack, wq, ws, wv, kq, ks, pq, pb, pi, 
                            pj, pv, oq, oi, oj, ov, ob, ready, stop, sent, 
                            done >>

worker(self) == a1(self) \/ a2(self) \/ a3(self) \/ a4(self) \/ a5(self)
                   \/ a6(self)

m1(self) == /\ pc[self] = "m1"
            /\ IF sent[self] < R
                  THEN /\ \E n \in {x \in 1..2 : sent[self] + x <= R}:
                            /\ sent' = [sent EXCEPT ![self] = sent[self] + n]
                            /\ /\ pb' = [pb EXCEPT ![self] = [x \in 1..n |-> sent'[self] - n + x]]
                               /\ pq' = [pq EXCEPT ![self] = "p"]
                               /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                        pc        |->  "m2",
                                                                        pi        |->  pi[self],
                                                                        pj        |->  pj[self],
                                                                        pv        |->  pv[self],
                                                                        pq        |->  pq[self],
                                                                        pb        |->  pb[self] ] >>
                                                                    \o stack[self]]
                            /\ pi' = [pi EXCEPT ![self] = 0]
                            /\ pj' = [pj EXCEPT ![self] = 0]
                            /\ pv' = [pv EXCEPT ![self] = Empty]
                            /\ pc' = [pc EXCEPT ![self] = "p1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "m4"]
                       /\ UNCHANGED << stack, pq, pb, pi, pj, pv, sent >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, oq, oi, oj, ov, ob, 
                            ready, stop, done >>

m2(self) == /\ pc[self] = "m2"
            /\ IF Early
                  THEN /\ TRUE
                       /\ pc' = [pc EXCEPT ![self] = "m1"]
                       /\ UNCHANGED << stack, oq, oi, oj, ov, ob >>
                  ELSE /\ \/ /\ TRUE
                             /\ pc' = [pc EXCEPT ![self] = "m1"]
                             /\ UNCHANGED <<stack, oq, oi, oj, ov, ob>>
                          \/ /\ done[self] < sent[self]
                             /\ /\ oq' = [oq EXCEPT ![self] = "r"]
                                /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "pop",
                                                                         pc        |->  "m3",
                                                                         oi        |->  oi[self],
                                                                         oj        |->  oj[self],
                                                                         ov        |->  ov[self],
                                                                         ob        |->  ob[self],
                                                                         oq        |->  oq[self] ] >>
                                                                     \o stack[self]]
                             /\ oi' = [oi EXCEPT ![self] = 0]
                             /\ oj' = [oj EXCEPT ![self] = 0]
                             /\ ov' = [ov EXCEPT ![self] = Empty]
                             /\ ob' = [ob EXCEPT ![self] = TRUE]
                             /\ pc' = [pc EXCEPT ![self] = "o1"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, 
                            ready, stop, sent, done >>

m3(self) == /\ pc[self] = "m3"
            /\ IF got[self] # <<>>
                  THEN /\ /\ back' = [back EXCEPT ![Head(got[self])] = back[Head(got[self])] + 1]
                          /\ done' = [done EXCEPT ![self] = done[self] + 1]
                          /\ got' = [got EXCEPT ![self] = Tail(got[self])]
                       /\ pc' = [pc EXCEPT ![self] = "m3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "m1"]
                       /\ UNCHANGED << got, back, done >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, ran, 
                            stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, oq, 
                            oi, oj, ov, ob, ready, stop, sent >>

m4(self) == /\ pc[self] = "m4"
            /\ IF Early
                  THEN /\ cancelled' = TRUE
                       /\ /\ pb' = [pb EXCEPT ![self] = <<STOP>>]
                          /\ pq' = [pq EXCEPT ![self] = "p"]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                   pc        |->  "m5",
                                                                   pi        |->  pi[self],
                                                                   pj        |->  pj[self],
                                                                   pv        |->  pv[self],
                                                                   pq        |->  pq[self],
                                                                   pb        |->  pb[self] ] >>
                                                               \o stack[self]]
                       /\ pi' = [pi EXCEPT ![self] = 0]
                       /\ pj' = [pj EXCEPT ![self] = 0]
                       /\ pv' = [pv EXCEPT ![self] = Empty]
                       /\ pc' = [pc EXCEPT ![self] = "p1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "m5"]
                       /\ UNCHANGED << cancelled, stack, pq, pb, pi, pj, pv >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, got, ran, back, wq, 
                            ws, wv, kq, ks, oq, oi, oj, ov, ob, ready, stop, 
                            sent, done >>

m5(self) == /\ pc[self] = "m5"
            /\ IF done[self] < sent[self]
                  THEN /\ /\ oq' = [oq EXCEPT ![self] = "r"]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "pop",
                                                                   pc        |->  "m6",
                                                                   oi        |->  oi[self],
                                                                   oj        |->  oj[self],
                                                                   ov        |->  ov[self],
                                                                   ob        |->  ob[self],
                                                                   oq        |->  oq[self] ] >>
                                                               \o stack[self]]
                       /\ oi' = [oi EXCEPT ![self] = 0]
                       /\ oj' = [oj EXCEPT ![self] = 0]
                       /\ ov' = [ov EXCEPT ![self] = Empty]
                       /\ ob' = [ob EXCEPT ![self] = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "o1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "m7"]
                       /\ UNCHANGED << stack, oq, oi, oj, ov, ob >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, 
                            ready, stop, sent, done >>

m6(self) == /\ pc[self] = "m6"
            /\ IF got[self] # <<>>
                  THEN /\ /\ back' = [back EXCEPT ![Head(got[self])] = back[Head(got[self])] + 1]
                          /\ done' = [done EXCEPT ![self] = done[self] + 1]
                          /\ got' = [got EXCEPT ![self] = Tail(got[self])]
                       /\ pc' = [pc EXCEPT ![self] = "m6"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "m5"]
                       /\ UNCHANGED << got, back, done >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, ran, 
                            stack, wq, ws, wv, kq, ks, pq, pb, pi, pj, pv, oq, 
                            oi, oj, ov, ob, ready, stop, sent >>

m7(self) == /\ pc[self] = "m7"
            /\ IF ~Early
                  THEN /\ cancelled' = TRUE
                       /\ /\ pb' = [pb EXCEPT ![self] = <<STOP>>]
                          /\ pq' = [pq EXCEPT ![self] = "p"]
                          /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "push",
                                                                   pc        |->  "m8",
                                                                   pi        |->  pi[self],
                                                                   pj        |->  pj[self],
                                                                   pv        |->  pv[self],
                                                                   pq        |->  pq[self],
                                                                   pb        |->  pb[self] ] >>
                                                               \o stack[self]]
                       /\ pi' = [pi EXCEPT ![self] = 0]
                       /\ pj' = [pj EXCEPT ![self] = 0]
                       /\ pv' = [pv EXCEPT ![self] = Empty]
                       /\ pc' = [pc EXCEPT ![self] = "p1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "m8"]
                       /\ UNCHANGED << cancelled, stack, pq, pb, pi, pj, pv >>
            /\ UNCHANGED << slot, head, tail, lock, asleep, got, ran, back, wq, 
                            ws, wv, kq, ks, oq, oi, oj, ov, ob, ready, stop, 
                            sent, done >>

m8(self) == /\ pc[self] = "m8"
            /\ \A w \in Workers : pc[w] = "Done"
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << slot, head, tail, lock, asleep, cancelled, got, 
                            ran, back, stack, wq, ws, wv, kq, ks, pq, pb, pi, 
                            pj, pv, oq, oi, oj, ov, ob, ready, stop, sent, 
                            done >>

main(self) == m1(self) \/ m2(self) \/ m3(self) \/ m4(self) \/ m5(self)
                 \/ m6(self) \/ m7(self) \/ m8(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in ProcSet:  \/ wait(self) \/ wake(self) \/ push(self)
                               \/ pop(self))
           \/ (\E self \in Workers: worker(self))
           \/ (\E self \in {0}: main(self))
           \/ Terminating

Spec == /\ Init /\ [][Next]_vars
        /\ \A self \in Workers : /\ WF_vars(worker(self))
                                 /\ WF_vars(push(self))
                                 /\ WF_vars(pop(self))
                                 /\ WF_vars(wait(self))
                                 /\ WF_vars(wake(self))
        /\ \A self \in {0} : /\ WF_vars(main(self))
                             /\ WF_vars(push(self))
                             /\ WF_vars(pop(self))
                             /\ WF_vars(wait(self))
                             /\ WF_vars(wake(self))

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
=============================================================================
