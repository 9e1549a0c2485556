------------------------------- MODULE LnMon -------------------------------
(* Observable specification of the dual listener.

   Events; k is a connection:
     DialB(k) / DialE(k,ok)   a client dials; it is connected (ok) or refused
     Got(k,side,ok)           an Accept of a side returned it; ok: it works (a byte passes)
     AccErr(side,closed)      an Accept of a side returned an error; closed: it is the closed error
     OffB / OffE              the application reports that one connection of side A went offline
     SrvClose(k)              the application closes a connection it was handed
     CliEnd(k)                the client sees the end of its connection
     CloseB / CloseE          Close is called, returns
     LateDial(ok)             a dial after Close has returned
     RunEnd                   the accept loop returns
     Calm                     everything had the time to happen while both sides accept
     End                      the same, after Close;  Crash / Hang
   cfg.max: how many may be online on side A.

   How the loop's decisions interleave with dials and reports cannot be seen: ws holds
   every state the listener may be in (cl: the sides which take no more). *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C27"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Q0 == [A |-> <<>>, B |-> <<>>]
Init0(cfg) == [ cfg |-> cfg, d |-> Empty, n |-> 0, offs |-> 0, closing |-> FALSE, closed |-> FALSE, run |-> TRUE, err |-> {}, ws |-> {[on |-> 0, dec |-> {}, po |-> 0, q |-> Q0, cl |-> {}]} ]
\* d[k] = [b, e (times; e = 0: still dialing), up (did not fail), got, end, srv]
Ready(s, w) == {k \in DOMAIN s.d : s.d[k].up /\ k \notin w.dec /\ \A j \in DOMAIN s.d : s.d[j].up /\ s.d[j].e # 0 /\ s.d[j].e < s.d[k].b => j \in w.dec}
Decide(s, w, k) ==
  LET side == IF w.on < s.cfg.max THEN "A" ELSE "B"
      on2 == IF side = "A" THEN w.on + 1 ELSE w.on
      w2 == [w EXCEPT !.on = on2, !.dec = @ \cup {k}]
  IN IF side \in w.cl THEN w2 ELSE [w2 EXCEPT !.q[side] = Append(@, k)]
Hidden(s, w) == {Decide(s, w, k) : k \in Ready(s, w)} \cup (IF w.po > 0 THEN {[w EXCEPT !.po = @ - 1, !.on = @ - 1]} ELSE {})
                \cup (IF s.closing THEN {[w EXCEPT !.cl = @ \cup {side}] : side \in {"A", "B"} \ w.cl} ELSE {})
RECURSIVE Clo(_, _, _)
Clo(s, done, new) == IF new = {} THEN done ELSE LET nx == UNION {Hidden(s, w) : w \in new} IN Clo(s, done \cup new, nx \ (done \cup new))
\* all states it may have reached; of a set of states, those from which the others are reached
All(s) == Clo(s, {}, s.ws)
Min(s, W) == W \ UNION {Hidden(s, w) : w \in W}
Keep(s, W) == [s EXCEPT !.ws = Min(s, W)]
Pop(s, e) == {[w EXCEPT !.q[e.side] = Tail(@)] : w \in {x \in All(s) : x.q[e.side] # <<>> /\ Head(x.q[e.side]) = e.k}}
Dry(s, side) == {w \in All(s) : w.q[side] = <<>> /\ side \in w.cl}
Apply(s, e) ==
  CASE e.e = "DialB" -> [s EXCEPT !.n = @ + 1, !.d = Upd(@, e.k, [b |-> s.n + 1, e |-> 0, up |-> TRUE, got |-> FALSE, end |-> FALSE, srv |-> FALSE])]
    [] e.e = "DialE" -> LET s2 == [s EXCEPT !.n = @ + 1, !.d[e.k].e = s.n + 1, !.d[e.k].up = e.ok] IN IF e.ok THEN s2 ELSE Keep(s2, {w \in All(s) : e.k \notin w.dec})
    [] e.e = "OffB" -> LET s2 == [s EXCEPT !.offs = @ + 1] IN Keep(s2, {[w EXCEPT !.po = @ + 1] : w \in All(s)})
    [] e.e = "OffE" -> Keep(s, {w \in All(s) : w.po = 0})
    [] e.e = "Got" -> LET s2 == [s EXCEPT !.d[e.k].got = TRUE] IN Keep(s2, Pop(s, e))
    [] e.e = "AccErr" -> LET s2 == [s EXCEPT !.err = @ \cup {e.side}] IN Keep(s2, Dry(s, e.side))
    [] e.e = "SrvClose" -> [s EXCEPT !.d[e.k].srv = TRUE]
    [] e.e = "CliEnd" -> [s EXCEPT !.d[e.k].end = TRUE]
    [] e.e = "CloseB" -> [s EXCEPT !.closing = TRUE]
    [] e.e = "CloseE" -> LET s2 == [s EXCEPT !.closed = TRUE] IN Keep(s2, {w \in All(s) : w.cl = {"A", "B"}})
    [] e.e = "RunEnd" -> [s EXCEPT !.run = FALSE]
    [] OTHER -> s
Bad(s, e) ==
  CASE e.e = "Got" -> If(e.k \notin DOMAIN s.d, {"C27"}) \cup If(e.k \in DOMAIN s.d /\ (s.d[e.k].got \/ ~e.ok), {"C27"})
                      \cup If(Pop(s, e) = {} \/ e.side \in s.err, {"C27"})
    [] e.e = "AccErr" -> If(~s.closing \/ ~e.closed \/ Dry(s, e.side) = {}, {"C27"})
    [] e.e = "DialE" -> If(~e.ok /\ ~s.closing, {"C27"})
    [] e.e = "CliEnd" -> If(~s.d[e.k].srv /\ (s.d[e.k].got \/ ~s.closing), {"C27"})
    [] e.e = "LateDial" -> If(e.ok, {"C27"})
    [] e.e = "RunEnd" -> If(~s.closing, {"C27"})
    [] e.e = "Calm" -> If(\E k \in DOMAIN s.d : s.d[k].up /\ ~s.d[k].got, {"C27"})
    [] e.e = "End" -> If((\E k \in DOMAIN s.d : s.d[k].up /\ ~s.d[k].got /\ ~s.d[k].end) \/ s.run \/ ~s.closed \/ s.err # {"A", "B"}, {"C27"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
