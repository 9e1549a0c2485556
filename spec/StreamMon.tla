------------------------------ MODULE StreamMon ------------------------------
(* Observable specification of arpc streams between a dialing client ("c") and the
   server's end ("s") of its connection.

   Events (t = virtual ms):
     Link(ep)                     connection number ep is up
     Drop  Stop(by)               the network loses the connection / end by is stopped by its user (S: the server with all its connections)
     Block(by,on)                 what end by writes stalls
     Open(x,by)                   end by creates stream x
     Start(x,by)    end by's stream handler begins for x (x = 0: for no stream ever opened);
     Panic(x)                     ... and panics
     SendB(x,by,n,tmo,eof) SendE(x,by,n,res)  value n is being sent (eof: together with the close)
     ClsB(x,by,tmo) ClsE(x,by)    the send direction is being closed / the call returned
     ClrB(x,by)                   the receive direction is closed by its reader
     RecvB(x,by,k,tmo) RecvE(x,by,k,res,n)    k-th receive; res: val (value n), eof, stopped, timeout, other, bad
     CallB(k,by) CallE(k,by,res)  an ordinary call by end by
     Quiet / Leak / Crash / Hang                                                *)
EXTENDS Integers, Sequences, FiniteSets

Slack == 60
AllProps == {"C18", "C19", "C12"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Opp(y) == IF y = "c" THEN "s" ELSE "c"
Ends == {"c", "s"}

Init0(cfg) == [ cfg |-> cfg, ep |-> 0, down |-> TRUE, stops |-> {}, sstop |-> {}, blk |-> {}, st |-> Empty, rv |-> Empty, calls |-> Empty, pans |-> 0 ]

\* one direction of a stream, named by its sending end
Dir0 == [ snd |-> <<>>, ci |-> FALSE, cr |-> FALSE, gaveup |-> FALSE, got |-> 0, eofs |-> FALSE, rc |-> FALSE ]

Dead(s, x) == s.st[x].ep # s.ep \/ s.down \/ s.stops # {}
\* a value which may still be delivered
Failed(v) == v.ret /\ v.res # "ok"
Sent(d) == {n \in 1..Len(d.snd) : ~Failed(d.snd[n])}
Sure(d) == {n \in 1..Len(d.snd) : d.snd[n].ret /\ d.snd[n].res = "ok"}
Pending(d) == {n \in 1..Len(d.snd) : ~d.snd[n].ret}
Backlog(d) == IF d.rc THEN 0 ELSE Cardinality({n \in Sent(d) : n > d.got})
\* end y's receive loop cannot be held up by a stream nobody reads
Flowing(s, y) == \A x \in DOMAIN s.st : LET d == s.st[x][Opp(y)] IN Backlog(d) <= s.cfg.sq
Closing(d) == d.ci \/ \E n \in 1..Len(d.snd) : d.snd[n].eof

-----------------------------------------------------------------------------
Apply(s, e) ==
  CASE e.e = "Link"  -> [s EXCEPT !.ep = e.ep, !.down = FALSE]
    [] e.e = "Drop"  -> [s EXCEPT !.down = TRUE]
    [] e.e = "Stop"  -> [s EXCEPT !.stops = IF e.by = "c" THEN @ \cup {"c"} ELSE @, !.sstop = IF e.by = "s" THEN @ \cup {s.ep} ELSE IF e.by = "S" THEN @ \cup 1..s.ep ELSE @, !.down = TRUE]
    [] e.e = "Block" -> [s EXCEPT !.blk = IF e.on THEN @ \cup {e.by} ELSE @ \ {e.by}]
    [] e.e = "Open"  -> [s EXCEPT !.st = Upd(s.st, e.x, [by |-> e.by, ep |-> s.ep, started |-> 0, stale |-> FALSE, c |-> Dir0, s |-> Dir0])]
    [] e.e = "Start" /\ e.x \in DOMAIN s.st -> [s EXCEPT !.st[e.x].started = @ + 1, !.st[e.x].stale = @ \/ s.st[e.x].ep # s.ep]
    [] e.e = "Panic" -> [s EXCEPT !.pans = @ + 1]
    [] e.e = "SendB" -> [s EXCEPT !.st[e.x][e.by].snd = Append(@, [ret |-> FALSE, res |-> "", t0 |-> e.t, tmo |-> e.tmo, eof |-> e.eof, late |-> s.st[e.x][e.by].cr])]
    [] e.e = "SendE" -> [s EXCEPT !.st[e.x][e.by].snd[e.n].ret = TRUE, !.st[e.x][e.by].snd[e.n].res = e.res,
                                  !.st[e.x][e.by].cr = @ \/ (s.st[e.x][e.by].snd[e.n].eof /\ e.res = "ok")]
    [] e.e = "ClsB"  -> [s EXCEPT !.st[e.x][e.by].ci = TRUE, !.st[e.x][e.by].gaveup = @ \/ e.tmo >= 0]
    [] e.e = "ClsE"  -> [s EXCEPT !.st[e.x][e.by].cr = TRUE]
    [] e.e = "ClrB"  -> [s EXCEPT !.st[e.x][Opp(e.by)].rc = TRUE]
    [] e.e = "RecvB" -> [s EXCEPT !.rv = Upd(s.rv, <<e.x, e.by, e.k>>, [ret |-> FALSE, t0 |-> e.t, tmo |-> e.tmo])]
    [] e.e = "RecvE" -> [s EXCEPT !.rv[<<e.x, e.by, e.k>>].ret = TRUE,
                                  !.st[e.x][Opp(e.by)].got = IF e.res = "val" THEN e.n ELSE @,
                                  !.st[e.x][Opp(e.by)].eofs = @ \/ e.res = "eof"]
    [] e.e = "CallB" -> [s EXCEPT !.calls = Upd(s.calls, e.k, [by |-> e.by, ret |-> FALSE, ep |-> s.ep])]
    [] e.e = "CallE" -> [s EXCEPT !.calls[e.k].ret = TRUE]
    [] OTHER -> s

-----------------------------------------------------------------------------
RecvBad(s, e) ==
  LET st == s.st[e.x]
      d == st[Opp(e.by)]
      r == s.rv[<<e.x, e.by, e.k>>]
      dead == Dead(s, e.x)
  IN
  CASE e.res = "val" ->
         If(e.n \notin 1..Len(d.snd), {"C18", "C19"})
         \cup If(e.n \in 1..Len(d.snd), If(e.n <= d.got \/ (Failed(d.snd[e.n]) /\ ~(dead /\ d.snd[e.n].eof)) \/ (~dead /\ \E n \in Sure(d) : n > d.got /\ n < e.n), {"C18"}))
         \cup If(d.eofs /\ ~dead /\ ~d.rc, {"C18"})
    [] e.res = "eof" -> If(~dead /\ ~d.rc /\ (~Closing(d) \/ \E n \in Sure(d) : n > d.got), {"C18", "C19"})
    [] e.res = "timeout" -> If(r.tmo < 0 \/ e.t < r.t0 + r.tmo, {"C18"})
    [] e.res = "stopped" -> If(~dead, {"C18", "C19"})
    [] OTHER -> {"C18", "C19"}

SendBad(s, e) ==
  LET d == s.st[e.x][e.by]
      v == d.snd[e.n]
      dead == Dead(s, e.x)
  IN
  CASE e.res = "ok" -> If(v.late /\ ~dead, {"C18"})
    [] e.res = "closed" -> If(~dead /\ ~Closing([d EXCEPT !.snd = [@ EXCEPT ![e.n].eof = FALSE]]), {"C18", "C19"})
    [] e.res = "timeout" -> If(v.tmo < 0 \/ e.t < v.t0 + v.tmo, {"C18"})
    [] e.res \in {"stopped", "reconnecting", "other"} -> If(~dead, {"C18", "C19"})
    [] OTHER -> {"C18"}

QuietRecv(s, e) ==
  UNION { LET r == s.rv[k]
              x == k[1]
              y == k[2]
              d == s.st[x][Opp(y)]
              dead == Dead(s, x)
              free == s.blk = {} /\ Flowing(s, y)
          IN
          If(r.ret, {})
          \cup If(~r.ret /\ r.tmo >= 0 /\ e.t > r.t0 + r.tmo + Slack, {"C18"})
          \cup If(~r.ret /\ d.rc, {"C18", "C19"})
          \cup If(~r.ret /\ dead /\ ~s.st[x].stale /\ Flowing(s, y), {"C19"})
          \cup If(~r.ret /\ "c" \in s.stops /\ y = "c", {"C19"})
          \cup If(~r.ret /\ y = "s" /\ (IF s.st[x].stale THEN s.ep ELSE s.st[x].ep) \in s.sstop, {"C19"})
          \cup If(~r.ret /\ ~dead /\ free /\ (\E n \in Sure(d) : n > d.got), {"C18", "C19"})
          \cup If(~r.ret /\ ~dead /\ free /\ Closing(d) /\ ~d.gaveup /\ Pending(d) = {} /\ ~(\E n \in 1..Len(d.snd) : d.snd[n].eof /\ Failed(d.snd[n])), {"C18"})
          : k \in DOMAIN s.rv }

QuietSend(s, e) ==
  UNION { UNION { LET d == s.st[x][y] IN
             UNION { LET v == d.snd[n] IN
                 If(v.tmo >= 0 /\ ~s.cfg.direct /\ e.t > v.t0 + v.tmo + Slack, {"C18"})
                 \cup If(y \notin s.blk /\ ~Dead(s, x), {"C18"})
                 \cup If(Dead(s, x) /\ (Flowing(s, y) \/ y \in s.stops), {"C19"})
                 : n \in Pending(d) }
             : y \in Ends } : x \in DOMAIN s.st }

QuietStart(s, e) ==
  UNION { LET st == s.st[x]
              d == st[st.by]
          IN If(~Dead(s, x) /\ s.blk = {} /\ Flowing(s, Opp(st.by)) /\ st.started = 0
                /\ (Sure(d) # {} \/ (d.cr /\ ~d.gaveup)), {"C19", "C18"})
          : x \in DOMAIN s.st }
  \cup UNION { LET k == s.calls[i] IN
          If(~k.ret /\ ((k.ep = s.ep /\ ~s.down /\ s.stops = {} /\ s.blk = {}) \/ k.ep # s.ep \/ s.down) /\ Flowing(s, "c") /\ Flowing(s, "s"), {"C19"})
          : i \in DOMAIN s.calls }

\* A second handler for the same stream, or one on a connection the stream was not opened on.  Two histories are known to cause it (known_findings.json):
\* K2: the handler's end had closed both directions, so it has forgotten the stream when more frames arrive;
\* K3: frames were still queued when the connection was lost and went out on the next one.
AgainBad(s, e) ==
  LET st == s.st[e.x]
      y == e.by
  IN IF st[Opp(y)].rc /\ Closing(st[y]) THEN {"K2"}
     ELSE {"C19"}

Bad0(s, e) ==
  CASE e.e = "RecvE" -> RecvBad(s, e)
    [] e.e = "SendE" -> SendBad(s, e)
    [] e.e = "Start" -> If(e.x \notin DOMAIN s.st, {"C19"})
                        \cup If(e.x \in DOMAIN s.st, If(s.st[e.x].by = e.by, {"C19"}) \cup If(s.st[e.x].ep # s.ep, {"K3"}) \cup If(s.st[e.x].ep = s.ep /\ s.st[e.x].started > 0, AgainBad(s, e)))
    [] e.e = "CallE" -> If(e.res # "ok" /\ s.calls[e.k].ep = s.ep /\ ~s.down /\ s.stops = {}, {"C19"})
    [] e.e = "Quiet" -> QuietRecv(s, e) \cup QuietSend(s, e) \cup QuietStart(s, e)
    [] e.e = "Leak"  -> {"C19"}
    [] e.e \in {"Crash", "Hang"} -> AllProps
    [] OTHER -> {}
Bad(s, e) == LET b == Bad0(s, e) IN b \cup If(b \cap AllProps # {} /\ s.pans > 0, {"C12"})
=============================================================================
