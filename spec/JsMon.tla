-------------------------------- MODULE JsMon --------------------------------
(* Observable specification of the JavaScript client (it runs in one thread: an
   environment step runs to its end, then promise reactions, then Quiet).

   Events (t: virtual ms); d, err: content tokens ("": none; err "timeout" and "x" (any other text of the client's own)):
     Dial(k) Open(k) Down(k)        a WebSocket is made / opens / has closed
     CallB(n,m,d,to,cb,http) CallE(n)     NoteB(n,m,d,http) NoteE(n)
     Frame(k,cmd,m,seq,d,ok)        sent on WebSocket k (k = 0: posted over HTTP)
     Pkt(fs) PktE                   a packet of frames [cmd,err,m,seq,d] arrives; n: as the answer to an HTTP post
     Cb(m,d)                        a handler runs
     Settle(n,via,d,err)            via "p" (promise) or "cb"
     HFail(n)                       the HTTP post of call n fails
     Shut                           shutdown is called
     Quiet                                                                                            *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C30"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
None == [n |-> 0, kind |-> "", m |-> "", d |-> "", fr |-> 0, seq |-> 0, http |-> FALSE]
Init0(cfg) == [ cfg |-> cfg, k |-> 0, st |-> "none", shut |-> FALSE, calls |-> Empty, cur |-> None, notes |-> <<>>, pings |-> 0, inPkt |-> FALSE ]
Has(s, m) == \E i \in 1..Len(s.cfg.handlers) : s.cfg.handlers[i] = m
Pending(s) == {n \in DOMAIN s.calls : ~s.calls[n].done}
Owner(s, q) == {n \in Pending(s) : s.calls[n].seq = q}
\* the client can send: its WebSocket is open and shutdown was not called
Up(s) == s.st = "open" /\ ~s.shut

\* what a packet decides: responses in order, the notifications to be seen
RECURSIVE Take(_, _)
Take(s, fs) ==
  IF fs = <<>> THEN s ELSE
  LET f == Head(fs)
      o == Owner(s, f.seq)
      s1 == CASE f.cmd = 2 /\ o # {} -> [s EXCEPT !.calls[CHOOSE n \in o : TRUE].done = TRUE,
                                                   !.calls[CHOOSE n \in o : TRUE].want = IF f.err THEN [d |-> "", err |-> f.d] ELSE [d |-> f.d, err |-> ""]]
              [] f.cmd \in {1, 3} /\ Has(s, f.m) -> [s EXCEPT !.notes = Append(@, [m |-> f.m, d |-> f.d])]
              [] f.cmd = 4 /\ Up(s) -> [s EXCEPT !.pings = @ + 1]
              [] OTHER -> s
  IN Take(s1, Tail(fs))
EndAll(s, S, w) == [s EXCEPT !.calls = [n \in DOMAIN @ |-> IF n \in S /\ ~@[n].done THEN [@[n] EXCEPT !.done = TRUE, !.want = w] ELSE @[n]]]
X == [d |-> "", err |-> "x"]

Apply(s, e) ==
  CASE e.e = "Dial" -> [s EXCEPT !.k = e.k, !.st = "dial"]
    [] e.e = "Open" -> [s EXCEPT !.st = "open"]
    [] e.e = "Down" -> [EndAll(s, Pending(s), X) EXCEPT !.st = "none"]
    [] e.e \in {"CallB", "NoteB"} -> [s EXCEPT !.cur = [n |-> e.n, kind |-> IF e.e = "CallB" THEN "call" ELSE "note", m |-> e.m, d |-> e.d, fr |-> 0, seq |-> 0, http |-> e.http],
                             !.calls = IF e.e = "CallB" THEN Upd(@, e.n, [m |-> e.m, d |-> e.d, to |-> e.to, t0 |-> e.t, cb |-> e.cb, seq |-> 0 - 1, done |-> ~Up(s), want |-> X, via |-> {}]) ELSE @]
    [] e.e = "Frame" -> IF s.cur.n > 0 /\ e.cmd \in {1, 3}
                          THEN [s EXCEPT !.cur.fr = @ + 1, !.calls = IF s.cur.kind = "call" /\ s.cur.n \in DOMAIN @ THEN [@ EXCEPT ![s.cur.n].seq = e.seq] ELSE @]
                        ELSE IF e.cmd = 5 THEN [s EXCEPT !.pings = @ - 1] ELSE s
    [] e.e \in {"CallE", "NoteE"} -> [s EXCEPT !.cur = None]
    [] e.e = "Pkt" -> [Take(s, e.fs) EXCEPT !.inPkt = TRUE]
    [] e.e = "PktE" -> [s EXCEPT !.inPkt = FALSE, !.notes = <<>>, !.pings = 0]
    [] e.e = "Cb" -> [s EXCEPT !.notes = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] e.e = "Settle" -> IF e.n \in DOMAIN s.calls THEN [s EXCEPT !.calls[e.n].via = @ \cup {e.via}, !.calls[e.n].want = IF s.calls[e.n].done THEN @ ELSE [d |-> e.d, err |-> e.err], !.calls[e.n].done = TRUE] ELSE s
    [] e.e = "HFail" -> EndAll(s, {e.n} \cap DOMAIN s.calls, X)
    [] e.e = "Shut" -> [s EXCEPT !.shut = TRUE]
    [] OTHER -> s

Bad(s, e) ==
  CASE e.e = "Dial" -> If(s.shut \/ s.st # "none", {"C30"})
    [] e.e = "Frame" ->
         IF ~e.ok THEN {"C30"}
         ELSE IF e.cmd = 4 THEN If(~Up(s) \/ ~s.cfg.keep, {"C30"})
         ELSE IF e.cmd = 5 THEN If(s.pings <= 0 \/ e.k # s.k, {"C30"})
         ELSE If(\/ s.cur.n = 0 \/ ~Up(s) \/ s.cur.fr > 0
                 \/ e.cmd # (IF s.cur.kind = "call" THEN 1 ELSE 3)
                 \/ e.m # s.cur.m \/ e.d # s.cur.d
                 \/ e.k # (IF s.cur.http THEN 0 ELSE s.k)
                 \/ (s.cur.kind = "call" /\ Owner(s, e.seq) # {}), {"C30"})
    [] e.e \in {"CallE", "NoteE"} -> If(s.cur.fr # IF Up(s) THEN 1 ELSE 0, {"C30"})
    [] e.e = "Cb" -> If(s.notes = <<>> \/ (s.notes # <<>> /\ Head(s.notes) # [m |-> e.m, d |-> e.d]), {"C30"})
    [] e.e = "PktE" -> If(s.notes # <<>> \/ s.pings # 0, {"C30"})
    [] e.e = "Settle" ->
         IF e.n \notin DOMAIN s.calls THEN {"C30"}
         ELSE LET c == s.calls[e.n] IN
              IF e.via \in c.via THEN {"C30"}
              ELSE IF c.done THEN If([d |-> e.d, err |-> e.err] # c.want, {"C30"})
              ELSE If(~(e.err = "timeout" /\ e.d = "" /\ c.to > 0 /\ e.t >= c.t0 + c.to), {"C30"})
    [] e.e = "Quiet" ->
         If(\/ \E n \in DOMAIN s.calls : LET c == s.calls[n] IN
                 \/ c.done /\ ("p" \notin c.via \/ (c.cb /\ "cb" \notin c.via))
                 \/ ~c.done /\ c.to > 0 /\ e.t >= c.t0 + c.to
            \/ (s.st = "none" /\ ~s.shut), {"C30"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
