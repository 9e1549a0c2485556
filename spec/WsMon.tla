------------------------------- MODULE WsMon -------------------------------
(* Observable specification of a connection over WebSocket: a byte stream.

   Events; x is an end ("C": dialed, "S": accepted), w a write (unique per end), g its writer:
     Up                       connected
     WrB(x,w,g,n) / WrE(x,w,ok)   writer g of end x writes n bytes; the write returned
     Rd(x,n,lim,segs)         a read at x with a buffer of lim bytes returned n bytes: runs [w, off, len] of the peer's writes
                              (w = 0: bytes nobody wrote there)
     RdErr(x)                 a read at x failed
     CloseB(x) / CloseE(x)    x is closed
     Stall(x,on)              the network takes no more bytes from x (or does again)
     Quiet                    nothing is left to happen; readers read on both ends
     Call(i) / CallRet(i,ok)  an RPC call; ok: answered with the right content
     Note(i) / NGot(i,ok)     a notification is sent, arrives
     Bc(i,n) / BGot(c,i,ok)   a broadcast to n clients, arrives at client c
     End;  Leak / Crash / Hang *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C28"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Peer(x) == IF x = "C" THEN "S" ELSE "C"
E0 == [wr |-> Empty, cur |-> 0, off |-> 0, err |-> FALSE, cb |-> FALSE, ce |-> FALSE, stall |-> FALSE]
\* wr[w] = [g, n, end, ok, got (bytes of it read), early (returned before its end began to close)]; cur/off: the write being read FROM this end
Init0(cfg) == [ C |-> E0, S |-> E0, calls |-> Empty, notes |-> Empty, bcs |-> Empty, bgot |-> {} ]
\* one run read from end x's writes: continues the current write, or starts one when the current one is complete
RunOk(t, r) == /\ r[1] \in DOMAIN t.wr /\ r[2] + r[3] <= t.wr[r[1]].n
               /\ IF t.cur # 0 /\ t.off < t.wr[t.cur].n THEN r[1] = t.cur /\ r[2] = t.off
                  ELSE r[2] = 0 /\ t.wr[r[1]].got = 0
                       \* a writer's writes in order
                       /\ \A v \in DOMAIN t.wr : t.wr[v].g = t.wr[r[1]].g /\ v < r[1] /\ t.wr[v].ok => t.wr[v].got = t.wr[v].n
Run(t, r) == IF r[1] \in DOMAIN t.wr THEN [t EXCEPT !.cur = r[1], !.off = r[2] + r[3], !.wr[r[1]].got = @ + r[3]] ELSE t
RECURSIVE Runs(_, _)
Runs(t, rs) == IF rs = <<>> THEN t ELSE Runs(Run(t, Head(rs)), Tail(rs))
RECURSIVE RunsOk(_, _)
RunsOk(t, rs) == rs = <<>> \/ (RunOk(t, Head(rs)) /\ RunsOk(Run(t, Head(rs)), Tail(rs)))
RECURSIVE Sum(_)
Sum(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[3] + Sum(Tail(rs))
Apply(s, e) ==
  CASE e.e = "WrB" -> [s EXCEPT ![e.x].wr = Upd(@, e.w, [g |-> e.g, n |-> e.n, end |-> FALSE, ok |-> FALSE, got |-> 0, early |-> FALSE])]
    [] e.e = "WrE" -> [s EXCEPT ![e.x].wr[e.w].end = TRUE, ![e.x].wr[e.w].ok = e.ok, ![e.x].wr[e.w].early = ~s[e.x].cb]
    [] e.e = "Rd" -> [s EXCEPT ![Peer(e.x)] = Runs(@, e.segs)]
    [] e.e = "RdErr" -> [s EXCEPT ![e.x].err = TRUE]
    [] e.e = "CloseB" -> [s EXCEPT ![e.x].cb = TRUE]
    [] e.e = "CloseE" -> [s EXCEPT ![e.x].ce = TRUE]
    [] e.e = "Stall" -> [s EXCEPT ![e.x].stall = e.on]
    [] e.e = "Call" -> [s EXCEPT !.calls = Upd(@, e.i, 0)]
    [] e.e = "CallRet" -> [s EXCEPT !.calls[e.i] = 1]
    [] e.e = "Note" -> [s EXCEPT !.notes = Upd(@, e.i, 0)]
    [] e.e = "NGot" /\ e.i \in DOMAIN s.notes -> [s EXCEPT !.notes[e.i] = @ + 1]
    [] e.e = "Bc" -> [s EXCEPT !.bcs = Upd(@, e.i, e.n)]
    [] e.e = "BGot" -> [s EXCEPT !.bgot = @ \cup {<<e.c, e.i>>}]
    [] OTHER -> s
Closing(s) == s.C.cb \/ s.S.cb
QuietBad(s) == UNION { LET t == s[x] p == s[Peer(x)] IN
     \* writes end, unless the network holds them back; closing this end ends them even so
     If((\E w \in DOMAIN t.wr : ~t.wr[w].end) /\ (~t.stall \/ t.ce), {"C28"})
     \* what was written is read
     \cup If(~p.cb /\ ~t.stall /\ (\E w \in DOMAIN t.wr : t.wr[w].ok /\ t.wr[w].early /\ t.wr[w].got < t.wr[w].n), {"C28"})
     \* closing ends the reads of both ends
     \cup If(t.ce /\ ~t.err, {"C28"})
     \cup If(t.ce /\ ~t.stall /\ ~p.err, {"C28"})
   : x \in {"C", "S"} }
Bad(s, e) ==
  CASE e.e = "WrE" -> If(~e.ok /\ ~Closing(s), {"C28"})
    [] e.e = "Rd" -> If(e.n > e.lim \/ Sum(e.segs) # e.n \/ ~RunsOk(s[Peer(e.x)], e.segs), {"C28"})
    [] e.e = "RdErr" -> If(~Closing(s), {"C28"})
    [] e.e = "Quiet" -> QuietBad(s)
    [] e.e = "CallRet" -> If(~e.ok \/ s.calls[e.i] # 0, {"C28"})
    [] e.e = "NGot" -> If(~e.ok \/ e.i \notin DOMAIN s.notes, {"C28"}) \cup If(e.i \in DOMAIN s.notes /\ s.notes[e.i] # 0, {"C28"})
    [] e.e = "BGot" -> If(~e.ok \/ e.i \notin DOMAIN s.bcs \/ <<e.c, e.i>> \in s.bgot, {"C28"})
    [] e.e = "End" -> If(\E i \in DOMAIN s.calls : s.calls[i] # 1, {"C28"}) \cup If(\E i \in DOMAIN s.notes : s.notes[i] # 1, {"C28"})
                      \cup If(\E i \in DOMAIN s.bcs : Cardinality({b \in s.bgot : b[2] = i}) # s.bcs[i], {"C28"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
