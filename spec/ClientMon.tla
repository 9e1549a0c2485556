------------------------------ MODULE ClientMon ------------------------------
(* Observable specification of one arpc client (dialing client, or the server's
   end of an accepted connection).  State: what has been submitted, written,
   answered and reported so far.  Apply(s,e) is the effect of an observable
   event, Bad(s,e) the set of properties (C01..C08, C12) which event e breaks in
   state s.  The same two operators judge the system model (ClientSys) and the
   traces recorded from the real code (TraceClient).

   Events (t = virtual ms):
     Dial(c)/DialRet(c,ok)      dialer entered / about to return
     OnConn / OnDisc            connection callbacks
     Start(o,k,tmo,bad)         operation o submitted   (k: call callctx async notify notifyctx push)
     Ret(o,res,d)               operation returned      (res: ok remote timeout overstock reconnecting stopped badmethod other)
     Cb(o,res,d)                asynchronous callback ran
     Out(c,o,seq,cmd,...)       a complete frame was handed to connection c
     BadOut(c)                  bytes which are not a frame
     Feed(c,k,o,seq,d,err)      the peer sent a response / ping / junk
     Drop(c)                    the peer closed, or made writes fail
     EofSeen(c)/WErr(c)         arpc got a read / write error from connection c
     CliClose(c)                arpc closed connection c
     BlockW(on)                 the peer stopped / resumed reading
     Cancel(o), Stop, StopRet
     Quiet(unread,partial,held) nothing can move any more without time or the environment
     Leak / Crash / Hang        goroutines left over / process died / no progress            *)
EXTENDS Integers, Sequences, FiniteSets

Slack == 60       \* ms of scheduling noise the harness may inject around a deadline
Retry == 1000     \* ms between reconnect attempts
Inf   == 1000000000

CallKinds == {"call", "callctx"}
SubKinds  == {"async", "notify", "notifyctx", "push"}
Refusals  == {"overstock", "timeout", "stopped", "reconnecting"}
AllProps  == {"C01","C02","C03","C04","C05","C06","C07","C08","C12"}

Empty == [x \in {} |-> 0]

Init0(cfg) ==
  [ cfg |-> cfg, ops |-> Empty, cs |-> Empty, cur |-> 0, link |-> "unsure",
    dialing |-> FALSE, fails |-> 0, lastFail |-> 0, okd |-> 0, onconn |-> 0, ondisc |-> 0,
    stop |-> FALSE, stopRet |-> FALSE, stopT |-> 0, blk |-> FALSE, fed |-> {}, pings |-> 0, pongs |-> 0 ]

Srv(s) == s.cfg.side = "srv"
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Gone(s, c)  == c \in DOMAIN s.cs /\ (s.cs[c].eof \/ s.cs[c].closed)
CurGone(s)  == s.cur # 0 /\ Gone(s, s.cur)

Deadline(op) == IF op.tmo > 0 THEN op.t0 + op.tmo ELSE Inf
Pending(op)  == ~op.ret
IsCall(op)   == op.k \in CallKinds
IsSub(op)    == op.k \in SubKinds
\* the link was certainly up when the operation began and nothing happened to it since
Solid(op) == op.solid
\* an asynchronous call that was accepted and whose callback is still owed
OwesCb(op)   == op.k = "async" /\ op.ret /\ op.res = "ok" /\ op.cbs = 0

MayBeStopped(s) == s.stop \/ s.ondisc > 0
                   \/ (~Srv(s) /\ s.cfg.maxrc > 0 /\ s.fails >= s.cfg.maxrc)
                   \/ (Srv(s) /\ s.link # "up")

Answered(s, op, d, err) ==
  op.out /\ \E f \in s.fed : f.seq = op.seq /\ f.err = err /\ (d = "*" \/ f.d = d)

\* operations that may have been in the send queue while o was being submitted
NoQueue(s) == {x \in DOMAIN s.ops : LET p == s.ops[x] IN
                 p.out \/ (p.ret /\ (p.res = "badmethod" \/ (IsSub(p) /\ p.res \in Refusals)))}
MayQueue(s, o) == DOMAIN s.ops \ ({o} \cup s.ops[o].noq)

NotOut(s) == {x \in DOMAIN s.ops : ~s.ops[x].out}

-----------------------------------------------------------------------------
(* Effects *)

Disturb(s) == [s EXCEPT !.link = "unsure",
   !.ops = [x \in DOMAIN s.ops |-> [s.ops[x] EXCEPT !.solid = FALSE, !.down = FALSE]]]

MarkLost(s, c) ==   \* operations certainly under way on the connection that was just lost
  [s EXCEPT !.ops = [x \in DOMAIN s.ops |->
      LET op == s.ops[x] IN
      IF (Pending(op) /\ (op.settled \/ op.outc = c)) \/ OwesCb(op)
      THEN [op EXCEPT !.lost = TRUE] ELSE op]]

Step(s, e) ==
  CASE e.e = "Start" ->
         [s EXCEPT !.ops = Upd(s.ops, e.o,
            [k |-> e.k, tmo |-> e.tmo, t0 |-> e.t, bad |-> e.bad, ret |-> FALSE, out |-> FALSE, outc |-> 0, seq |-> 0,
             res |-> "", cbs |-> 0, settled |-> FALSE, lost |-> FALSE, canc |-> FALSE,
             solid |-> s.link = "up",      \* link certainly up so far
             down  |-> s.link = "down",    \* link certainly down so far
             dead0 |-> s.ondisc > 0,       \* started after the end
             noq   |-> NoQueue(s),         \* cannot be in the queue any more
             pre   |-> {x \in DOMAIN s.ops : s.ops[x].ret}])]
    [] e.e = "Ret" ->
         [s EXCEPT !.ops[e.o].ret = TRUE, !.ops[e.o].res = e.res]
    [] e.e = "Cb"  -> [s EXCEPT !.ops[e.o].cbs = @ + 1]
    [] e.e = "Out" ->
         IF e.o \in DOMAIN s.ops
         THEN [s EXCEPT !.ops[e.o].out = TRUE, !.ops[e.o].outc = e.c, !.ops[e.o].seq = e.seq,
                        !.ops[e.o].lost = @ \/ (Pending(s.ops[e.o]) /\ Gone(s, e.c))]
         ELSE IF e.cmd = 5 THEN [s EXCEPT !.pongs = @ + 1] ELSE s
    [] e.e = "Feed" ->
         IF e.k = "rsp" THEN [s EXCEPT !.fed = @ \cup {[seq |-> e.seq, d |-> e.d, err |-> e.err, c |-> e.c]}]
         ELSE IF e.k = "ping" THEN [s EXCEPT !.pings = @ + 1] ELSE s
    [] e.e = "Dial" -> [s EXCEPT !.dialing = TRUE]
    [] e.e = "DialRet" ->
         IF e.ok THEN [Disturb(s) EXCEPT !.dialing = FALSE, !.cur = e.c, !.fails = 0, !.okd = @ + 1,
                          !.cs = Upd(s.cs, e.c, [drop |-> FALSE, eof |-> FALSE, closed |-> FALSE])]
         ELSE [s EXCEPT !.dialing = FALSE, !.fails = @ + 1, !.lastFail = e.t]
    [] e.e = "Drop"    -> [Disturb(s) EXCEPT !.cs[e.c].drop = TRUE]
    [] e.e = "EofSeen" -> MarkLost([Disturb(s) EXCEPT !.cs[e.c].eof = TRUE], e.c)
    [] e.e = "WErr"    -> Disturb(s)
    [] e.e = "CliClose" -> MarkLost([Disturb(s) EXCEPT !.cs[e.c].closed = TRUE], e.c)
    [] e.e = "BlockW"  -> [s EXCEPT !.blk = e.on]
    [] e.e = "Cancel"  -> IF e.o \in DOMAIN s.ops THEN [s EXCEPT !.ops[e.o].canc = TRUE] ELSE s
    [] e.e = "Stop"    -> [Disturb(s) EXCEPT !.stop = TRUE]
    [] e.e = "StopRet" -> [s EXCEPT !.stopRet = TRUE, !.stopT = IF s.stopRet THEN @ ELSE e.t]
    [] e.e = "OnConn"  -> [s EXCEPT !.onconn = @ + 1]
    [] e.e = "OnDisc"  -> [Disturb(s) EXCEPT !.ondisc = @ + 1]
    [] e.e = "Quiet"   ->
         [s EXCEPT !.link = IF CurGone(s) THEN "down"
                            ELSE IF s.cs[s.cur].drop THEN "unsure" ELSE "up",
                   !.ops = [x \in DOMAIN s.ops |->
                              IF Pending(s.ops[x]) THEN [s.ops[x] EXCEPT !.settled = TRUE] ELSE s.ops[x]]]
    [] OTHER -> s

Apply(s, e) == Step(s, e)

-----------------------------------------------------------------------------
(* Obligations *)

If(c, S) == IF c THEN S ELSE {}

RetBad(s, e) ==
  LET op == s.ops[e.o]
      kp == IF IsCall(op) THEN {"C02"} ELSE IF op.k = "async" THEN {"C03"} ELSE {"C05"}
  IN
  \* exactly one return per operation
     If(~Pending(op), kp)
  \* success and remote errors come only from a matching response
  \cup If(IsCall(op) /\ e.res = "ok" /\ ~Answered(s, op, e.d, FALSE), {"C01"})
  \cup If(e.res = "remote" /\ ~(IsCall(op) /\ Answered(s, op, e.d, TRUE)), {"C01"})
  \* an invalid method is refused, and only an invalid one
  \cup If((e.res = "badmethod") # (op.bad /\ e.res \notin {"reconnecting", "stopped"}), {"C08"})
  \* a timeout is reported only when the time is up
  \cup If(e.res = "timeout" /\ ~op.canc /\ e.t < Deadline(op), kp)
  \cup If(e.res = "reconnecting" /\ (Solid(op) \/ Srv(s)), kp \cup {"C06"})
  \cup If(e.res = "stopped" /\ ~MayBeStopped(s), kp \cup {"C07"})
  \* queue-full only for zero-timeout submissions, and only if the queue can have been full
  \cup If(e.res = "overstock" /\ ~(op.k \in {"notify", "push"} /\ op.tmo = 0
                                    /\ Cardinality(MayQueue(s, e.o)) >= s.cfg.q), {"C05"})
  \cup If(e.res = "other" /\ (~s.cfg.direct \/ Solid(op)), kp)
  \* started while the link was certainly down: refused, unless it came back meanwhile
  \cup If(op.down /\ ~s.stop /\ s.ondisc = 0 /\ ~Srv(s)
          /\ e.res \notin {"reconnecting", "badmethod"}
          /\ ~(e.res = "stopped" /\ MayBeStopped(s)), {"C06"})
  \cup If(op.dead0 /\ e.res \notin {"stopped"}, {"C07"})
  \* a refused notification or asynchronous call is never written
  \cup If(IsSub(op) /\ op.out /\ e.res \in Refusals, {"C04"})

CbBad(s, e) ==
  LET op == s.ops[e.o] IN
     If(op.cbs # 0 \/ op.k # "async", {"C03"})
  \cup If(e.res = "ok" /\ ~Answered(s, op, e.d, FALSE), {"C01", "C03"})
  \cup If(e.res = "remote" /\ ~Answered(s, op, e.d, TRUE), {"C01", "C03"})
  \cup If(e.res = "timeout" /\ e.t < Deadline(op), {"C03"})
  \cup If(e.res = "reconnecting" /\ (Solid(op) \/ Srv(s)), {"C03"})
  \cup If(e.res = "stopped" /\ ~MayBeStopped(s), {"C03"})
  \cup If(e.res \notin {"ok", "remote", "timeout", "reconnecting", "stopped"}, {"C03"})

OutBad(s, e) ==
  IF e.o \notin DOMAIN s.ops
  THEN \* the only frames not submitted are answers to pings
       If(~(e.cmd = 5 /\ e.clean /\ ~e.err /\ ~e.async /\ s.pongs < s.pings), {"C08"})
  ELSE
  LET op == s.ops[e.o]
      cmd == IF op.k \in {"call", "callctx", "async"} THEN 1 ELSE 3
  IN
     If(~(e.clean /\ e.mok /\ e.dok /\ e.cmd = cmd /\ ~e.err /\ ~op.bad
          /\ (op.k = "push" \/ e.async = (op.k \notin CallKinds))), {"C08"})
  \cup If(op.out, {"C04"})
  \cup If(op.ret /\ IsSub(op) /\ op.res \in Refusals, {"C04"})
  \cup If(\E x \in DOMAIN s.ops : s.ops[x].out /\ e.o \in s.ops[x].pre, {"C04"})
  \cup If(\E x \in DOMAIN s.ops \ {e.o} : s.ops[x].out /\ s.ops[x].seq = e.seq, {"C01"})

DialBad(s, e) ==
     If(s.stopRet /\ e.t > s.stopT, {"C07"})      \* stop is final: not a dial begun later
  \cup If(s.ondisc > 0, {"C06", "C07"})
  \cup If(~Srv(s) /\ s.cur # 0,
          If(~CurGone(s) \/ ~s.cs[s.cur].closed, {"C06"})
          \cup If(s.dialing, {"C06"})
          \cup If(s.fails > 0 /\ e.t < s.lastFail + Retry \div 2, {"C06"})
          \cup If(s.cfg.maxrc > 0 /\ s.fails >= s.cfg.maxrc, {"C06"}))

QuietBad(s, e) ==
  LET overdue(op) == e.t > Deadline(op) + Slack
      down == CurGone(s)
      quick == ~s.cfg.direct \/ ~s.blk       \* direct writing waits for a stalled peer
      answerable(op) == op.out /\ op.outc = s.cur /\ ~down /\ e.unread = 0
                        /\ (~s.blk \/ s.pings = 0)          \* answering a ping waits for a stalled peer
                        /\ \E f \in s.fed : f.seq = op.seq /\ f.c = s.cur
      \* a message that joins a batch while the connection is being lost ends at its deadline only
      prompt == ~(s.cfg.batch /\ s.cfg.sbuf > 0)
      downNow(op) == down /\ (prompt \/ op.lost)
      P == {x \in DOMAIN s.ops : Pending(s.ops[x])}
      stopDue == s.stopRet /\ ~e.held /\ e.t > s.stopT + Retry + Slack /\ (s.fails = 0 \/ e.t > s.lastFail + Retry + Slack)
      exhausted == ~Srv(s) /\ s.cfg.maxrc > 0 /\ s.fails >= s.cfg.maxrc
      queued == Cardinality({x \in NotOut(s) : IsSub(s.ops[x]) /\ s.ops[x].res = "ok" /\ Solid(s.ops[x])})
  IN
  UNION { LET op == s.ops[x] IN
      If(IsCall(op) /\ quick /\ (overdue(op) \/ op.canc \/ (op.lost /\ (op.out \/ ~s.blk)) \/ downNow(op) \/ s.stopRet), {"C02"})
      \cup If(IsCall(op) /\ quick /\ answerable(op), {"C01", "C02"})
      \cup If(IsSub(op) /\ quick /\ (overdue(op) \/ op.canc \/ (op.tmo = 0 /\ op.k \in {"notify", "push"})), {"C05"})
      \cup If(IsSub(op) /\ quick /\ ((op.lost /\ ~s.blk) \/ s.stopRet), {"C07"})   \* a stalled peer keeps the queue full
      \cup If(down /\ quick /\ ~Srv(s) /\ ~s.stop /\ (prompt \/ op.down \/ op.lost), {"C06"})
      \cup If(s.stopRet /\ quick, {"C07"})
      \* there is room, so nobody has to wait
      \cup If(~s.cfg.direct /\ IsSub(op) /\ Solid(op) /\ s.pings = 0 /\ Cardinality(NotOut(s)) <= s.cfg.q, {"C05"})
      : x \in P }
  \cup UNION { LET op == s.ops[x] IN
      If(OwesCb(op) /\ (overdue(op) \/ answerable(op)
          \/ (~Srv(s) /\ (op.lost \/ (down /\ ~s.stop /\ prompt)))), {"C03"})
      \cup If(OwesCb(op) /\ answerable(op), {"C01"})
      \* accepted on a healthy link which is being read: written
      \cup If((~op.ret \/ (op.res = "ok" /\ IsSub(op))) /\ ~op.out /\ Solid(op) /\ ~s.blk, {"C04"})
      : x \in DOMAIN s.ops }
  \cup If(~s.cfg.direct /\ ~down /\ s.pings = 0 /\ queued > s.cfg.q, {"C05"})
  \cup If(~down /\ ~s.cs[s.cur].drop /\ e.partial > 0, {"C08"})
  \cup If(~down /\ e.unread > 0 /\ (~s.blk \/ s.pings = 0), {"C01"})
  \* reconnecting
  \cup If(~Srv(s) /\ ~s.stop /\ s.ondisc = 0 /\ down /\ ~s.dialing
          /\ (IF s.fails = 0 THEN TRUE ELSE e.t > s.lastFail + Retry + Slack), {"C06"})
  \cup If(~Srv(s) /\ ~s.stop /\ s.onconn # s.okd, {"C06"})
  \cup If(~Srv(s) /\ ~s.stop /\ exhausted /\ e.t > s.lastFail + Retry + Slack /\ s.ondisc # 1, {"C06"})
  \* a lost connection is closed
  \cup If(\E c \in DOMAIN s.cs : s.cs[c].eof /\ ~s.cs[c].closed, {"C06"})
  \cup If(Srv(s) /\ down /\ s.ondisc # 1, {"C07"})
  \* stopping
  \cup If(s.stop /\ ~s.stopRet, {"C07"})
  \cup If(stopDue /\ (s.ondisc # 1 \/ \E c \in DOMAIN s.cs : ~s.cs[c].closed), {"C07"})

Bad(s, e) ==
  CASE e.e = "Ret"  -> RetBad(s, e)
    [] e.e = "Cb"   -> CbBad(s, e)
    [] e.e = "Out"  -> OutBad(s, e)
    [] e.e = "BadOut" -> {"C08"}
    [] e.e = "Dial" -> DialBad(s, e)
    [] e.e = "CliClose" ->
         \* a healthy connection is not given up
         If(~Srv(s) /\ ~s.stop /\ ~(s.cs[e.c].drop \/ s.cs[e.c].eof)
            /\ ~(e.c # s.cur), {"C06"})
         \cup If(Srv(s) /\ ~s.stop /\ ~(s.cs[e.c].drop \/ s.cs[e.c].eof), {"C04"})
    [] e.e = "OnConn" -> If(s.onconn >= s.okd, {"C06"})
    [] e.e = "OnDisc" ->
         If(s.ondisc > 0, {"C06", "C07"})
         \cup If(~s.stop /\ ~Srv(s) /\ ~(s.cfg.maxrc > 0 /\ s.fails = s.cfg.maxrc), {"C06"})
    [] e.e = "Quiet" -> QuietBad(s, e)
    [] e.e = "Leak"  -> {"C07"}
    [] e.e \in {"Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
