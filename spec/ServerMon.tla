------------------------------ MODULE ServerMon ------------------------------
(* Observable specification of an arpc server with several connections:
   accepting, membership and load, dispatch through the middleware chain,
   replies, broadcast, malformed input, panics, stop and shutdown.

   Events (t = virtual ms):
     Conn(c)                     a peer connects
     Acc(c)                      the listener handed connection c to the server
     OnConn(c) OnConnRet(c) OnDisc(c)
     In(c,o,k,m)                 the peer has sent the whole of message o (k: req ntf) for method m on c
     Bad(c,why,fatal)            the peer has sent something malformed
     Ping(c)
     El(o,n,vis,ok,cok)          chain element n begins for message o and sees the values vis
     Set(o,n) Next(o) Abort(o) Panic(o) ElEnd(o,n) Gate(o,on)
     W(o,n,err,tmo) WRet(o,n,res)  a handler writes reply n / the write returns
     Out(c,k,o,n,ok)             the server wrote a frame on c: k = rsp (reply n to o, 0 = automatic),
                                 bc (broadcast n), sc (server-side call n), pong, other
     SCall(c,n) SRet(n,res)      a server-side call on connection c
     Bcast(b,f,all) BRet(b)      broadcast b to the connections in f (or to all)
     StopCli(c)                  user code stops connection c
     Drop(c) WKill(c) BlockW(c,on)  the peer closes / breaks / stalls
     EofSeen(c) WErr(c) CliClose(c)
     SrvStop(k,tmo) SrvStopRet(res) ServeRet AccErr   (the accept loop was given a temporary error: it retries after 50 ms)
     Quiet(mem,load,un,par,lnclosed)
     Leak / Crash / Hang                                                       *)
EXTENDS Integers, Sequences, FiniteSets

Slack == 60
AllProps == {"C09","C10","C11","C12","C13","C14","C15","C16","C17"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Range(q) == {q[i] : i \in 1..Len(q)}
Refusals == {"timeout", "overstock", "stopped", "reconnecting", "notify"}

Init0(cfg) ==
  [ cfg |-> cfg, cs |-> Empty, ops |-> Empty, wr |-> Empty, bs |-> Empty, sc |-> Empty,
    stop |-> FALSE, stopk |-> "", stopT |-> 0, stopTmo |-> 0, stopRet |-> FALSE, served |-> TRUE,
    accErr |-> -1000, pans |-> 0, bads |-> 0 ]

NewConn == [ acc |-> FALSE, on |-> 0, onret |-> 0, disc |-> 0, drop |-> FALSE, eof |-> FALSE, closed |-> FALSE, hurt |-> FALSE,
             stopc |-> FALSE, fatal |-> FALSE, bad |-> 0, pings |-> 0, pongs |-> 0, blk |-> FALSE, arr |-> <<>>,
             may |-> {}, settled |-> FALSE, outs |-> 0, refused |-> FALSE ]

-----------------------------------------------------------------------------
(* The chain of a method, from the registrations in order: every middleware and
   the method's handler, in registration order.  "!" stands for the built-in
   not-found handler.                                                         *)
Handled(prog, m) == \E i \in 1..Len(prog) : prog[i].t = "h" /\ prog[i].m = m
NFPos(prog) == LET N == {i \in 1..Len(prog) : prog[i].t = "nf"}
                   H == {i \in 1..Len(prog) : prog[i].t = "h"}
               IN IF N # {} THEN CHOOSE i \in N : \A j \in N : j <= i
                  ELSE IF H # {} THEN CHOOSE i \in H : \A j \in H : i <= j ELSE 0
Pick(prog, at) == LET q == SelectSeq([i \in 1..Len(prog) |-> i], LAMBDA i : i = at \/ prog[i].t = "u")
                  IN [k \in 1..Len(q) |-> IF q[k] = at /\ prog[at].t = "h" THEN "!" ELSE prog[q[k]].n]
PickH(prog, m) == LET q == SelectSeq(prog, LAMBDA x : x.t = "u" \/ (x.t = "h" /\ x.m = m))
                  IN [k \in 1..Len(q) |-> q[k].n]
Chain(prog, m) == IF Handled(prog, m) THEN PickH(prog, m)
                  ELSE IF NFPos(prog) = 0 THEN <<>> ELSE Pick(prog, NFPos(prog))
InLine(prog, m) == IF Handled(prog, m)
                   THEN \E i \in 1..Len(prog) : prog[i].t = "h" /\ prog[i].m = m /\ ~prog[i].as
                   ELSE TRUE

AutoIdx(op) == IF \E i \in 1..Len(op.chain) : op.chain[i] = "!" THEN CHOOSE i \in 1..Len(op.chain) : op.chain[i] = "!" ELSE 0
\* index of the next element which can be observed, 0 if none
NextIdx(op) == LET i == op.pos + 1 IN
               IF i > Len(op.chain) THEN 0
               ELSE IF op.chain[i] # "!" THEN i ELSE IF i < Len(op.chain) THEN i + 1 ELSE 0
Finished(op) == op.open = 0 /\ (op.ab \/ op.pan \/ NextIdx(op) = 0)
Runs(op, i) == IF op.ab THEN i <= op.abAt ELSE IF op.pan THEN i <= op.pos ELSE TRUE
AutoDue(op) == op.k = "req" /\ AutoIdx(op) > 0 /\ Runs(op, AutoIdx(op))

Taken0(s) == {c \in DOMAIN s.cs : s.cs[c].acc}
OpsOf(s, c) == {o \in DOMAIN s.ops : s.ops[o].c = c}
PendW(s, o) == {x \in DOMAIN s.wr : x[1] = o /\ ~s.wr[x].ret}
InlineBusy(s, c) == {o \in OpsOf(s, c) : s.ops[o].sync /\ s.ops[o].pos > 0 /\ ~Finished(s.ops[o])}
\* the receive loop of c may be waiting for user code or for a stalled peer
\* (the automatic reply is written by the receive loop itself)
RecvStuck(s, c) == InlineBusy(s, c) # {} \/ (s.cs[c].blk /\ s.cs[c].pings > 0)
                   \/ (s.cs[c].blk /\ \E o \in OpsOf(s, c) : AutoDue(s.ops[o]))
Healthy(s, c) == LET x == s.cs[c] IN x.acc /\ ~(x.drop \/ x.eof \/ x.closed \/ x.hurt \/ x.stopc \/ x.fatal \/ s.stop \/ x.refused)
Before(s, o) == {p \in OpsOf(s, s.ops[o].c) : s.ops[p].no < s.ops[o].no}
MayStart(s, o) == \A p \in Before(s, o) : s.ops[p].sync => Finished(s.ops[p])
\* closed without being announced while the maximum may have been reached
RefusedLike(s, c) == s.cs[c].refused \/ (s.cs[c].on = 0 /\ s.cs[c].closed /\ s.cfg.maxload > 0 /\ Cardinality(s.cs[c].may) >= s.cfg.maxload)
AccBusy(s) == \E c \in DOMAIN s.cs : s.cs[c].on > s.cs[c].onret

\* messages which may be waiting in the send queue of c
Items(s, c) == {<<"w", x[1], x[2]>> : x \in {y \in DOMAIN s.wr : s.ops[y[1]].c = c /\ ~s.wr[y].out /\ s.wr[y].res \notin Refusals}}
          \cup {<<"b", b, 0>> : b \in {y \in DOMAIN s.bs : c \notin s.bs[y].out /\ (s.bs[y].all \/ c \in s.bs[y].f)}}
          \cup {<<"s", n, 0>> : n \in {y \in DOMAIN s.sc : s.sc[y].c = c /\ ~s.sc[y].out}}
          \cup {<<"a", o, 0>> : o \in {y \in OpsOf(s, c) : AutoIdx(s.ops[y]) > 0 /\ s.ops[y].auto = 0}}

-----------------------------------------------------------------------------
Apply(s, e) ==
  CASE e.e = "Conn" -> [s EXCEPT !.cs = Upd(s.cs, e.c, NewConn)]
    [] e.e = "Acc" -> [s EXCEPT !.cs[e.c].acc = TRUE, !.cs[e.c].may = {d \in Taken0(s) : s.cs[d].disc = 0 /\ ~s.cs[d].refused}]
    [] e.e = "OnConn" -> [s EXCEPT !.cs[e.c].on = @ + 1]
    [] e.e = "OnConnRet" -> [s EXCEPT !.cs[e.c].onret = @ + 1]
    [] e.e = "OnDisc" -> [s EXCEPT !.cs[e.c].disc = @ + 1]
    [] e.e = "In" ->
         [s EXCEPT !.ops = Upd(s.ops, e.o,
            [c |-> e.c, k |-> e.k, chain |-> Chain(s.cfg.prog, e.m), sync |-> InLine(s.cfg.prog, e.m), no |-> Len(s.cs[e.c].arr) + 1,
             pos |-> 0, open |-> 0, vis |-> {}, ab |-> FALSE, abAt |-> 0, pan |-> FALSE, gate |-> FALSE, auto |-> 0]),
            !.cs[e.c].arr = Append(@, e.o)]
    [] e.e = "Bad"  -> [s EXCEPT !.cs[e.c].bad = @ + 1, !.cs[e.c].fatal = @ \/ e.fatal, !.bads = @ + 1]
    [] e.e = "Ping" -> [s EXCEPT !.cs[e.c].pings = @ + 1]
    [] e.e = "El" /\ e.o \in DOMAIN s.ops ->
         [s EXCEPT !.ops[e.o].pos = IF NextIdx(s.ops[e.o]) = 0 THEN @ ELSE NextIdx(s.ops[e.o]), !.ops[e.o].open = @ + 1]
    [] e.e = "ElEnd" /\ e.o \in DOMAIN s.ops -> [s EXCEPT !.ops[e.o].open = @ - 1]
    [] e.e = "Set"   -> [s EXCEPT !.ops[e.o].vis = @ \cup {e.n}]
    [] e.e = "Abort" -> [s EXCEPT !.ops[e.o].ab = TRUE, !.ops[e.o].abAt = IF s.ops[e.o].ab THEN @ ELSE s.ops[e.o].pos]
    \* the built-in not-found handler is not seen directly
    [] e.e = "Next" -> LET op == s.ops[e.o] IN
         IF ~op.ab /\ op.pos < Len(op.chain) /\ op.chain[op.pos + 1] = "!" THEN [s EXCEPT !.ops[e.o].pos = @ + 1] ELSE s
    [] e.e = "Panic" -> [s EXCEPT !.ops[e.o].pan = TRUE, !.pans = @ + 1]
    [] e.e = "Gate"  -> [s EXCEPT !.ops[e.o].gate = e.on]
    [] e.e = "W"     -> [s EXCEPT !.wr = Upd(s.wr, <<e.o, e.n>>, [ret |-> FALSE, res |-> "", out |-> FALSE, t0 |-> e.t, tmo |-> e.tmo, err |-> e.err])]
    [] e.e = "WRet"  -> [s EXCEPT !.wr[<<e.o, e.n>>].ret = TRUE, !.wr[<<e.o, e.n>>].res = e.res]
    [] e.e = "Out" ->
         LET s1 == IF e.c \in DOMAIN s.cs THEN [s EXCEPT !.cs[e.c].outs = @ + 1] ELSE s IN
         CASE e.k = "rsp" /\ e.n = 0 /\ e.o \in DOMAIN s.ops -> [s1 EXCEPT !.ops[e.o].auto = @ + 1]
           [] e.k = "rsp" /\ <<e.o, e.n>> \in DOMAIN s.wr -> [s1 EXCEPT !.wr[<<e.o, e.n>>].out = TRUE]
           [] e.k = "bc" /\ e.n \in DOMAIN s.bs -> [s1 EXCEPT !.bs[e.n].out = @ \cup {e.c}]
           [] e.k = "sc" /\ e.n \in DOMAIN s.sc -> [s1 EXCEPT !.sc[e.n].out = TRUE]
           [] e.k = "pong" -> [s1 EXCEPT !.cs[e.c].pongs = @ + 1]
           [] OTHER -> s1
    [] e.e = "SCall" -> [s EXCEPT !.sc = Upd(s.sc, e.n, [c |-> e.c, ret |-> FALSE, out |-> FALSE])]
    [] e.e = "SRet"  -> [s EXCEPT !.sc[e.n].ret = TRUE]
    [] e.e = "Bcast" -> [s EXCEPT !.bs = Upd(s.bs, e.b, [f |-> Range(e.f), all |-> e.all, out |-> {}, ret |-> FALSE,
                            cand |-> {c \in DOMAIN s.cs : s.cs[c].settled /\ Healthy(s, c) /\ s.cs[c].on = 1 /\ (e.all \/ c \in Range(e.f))},
                            gone |-> {c \in DOMAIN s.cs : s.cs[c].disc > 0},
                            had |-> [c \in DOMAIN s.cs |-> Items(s, c)], due |-> {}, late |-> {}])]
    [] e.e = "BRet" ->
         LET b == s.bs[e.b]
             due == {c \in b.cand : s.cfg.direct \/ Cardinality((Items(s, c) \cup b.had[c]) \ {<<"b", e.b, 0>>}) < s.cfg.q}
         IN [s EXCEPT !.bs[e.b].ret = TRUE, !.bs[e.b].due = due]
    [] e.e = "StopCli" -> [s EXCEPT !.cs[e.c].stopc = TRUE]
    [] e.e = "Drop"  -> [s EXCEPT !.cs[e.c].drop = TRUE]
    [] e.e = "WKill" -> [s EXCEPT !.cs[e.c].hurt = TRUE]
    [] e.e = "WErr"  -> [s EXCEPT !.cs[e.c].hurt = TRUE]
    [] e.e = "BlockW" -> [s EXCEPT !.cs[e.c].blk = e.on]
    [] e.e = "EofSeen" -> [s EXCEPT !.cs[e.c].eof = TRUE]
    [] e.e = "CliClose" -> [s EXCEPT !.cs[e.c].closed = TRUE,
                               !.cs[e.c].refused = (s.cs[e.c].on = 0 /\ Healthy(s, e.c))]
    [] e.e = "SrvStop" -> [s EXCEPT !.stop = TRUE, !.stopk = e.k, !.stopT = e.t, !.stopTmo = e.tmo]
    [] e.e = "SrvStopRet" -> [s EXCEPT !.stopRet = TRUE]
    [] e.e = "ServeRet" -> [s EXCEPT !.served = FALSE]
    [] e.e = "AccErr" -> [s EXCEPT !.accErr = e.t]
    [] e.e = "Quiet" -> [s EXCEPT !.cs = [c \in DOMAIN s.cs |-> [s.cs[c] EXCEPT !.settled = (s.cs[c].on = 1), !.refused = RefusedLike(s, c)]]]
    [] OTHER -> s

-----------------------------------------------------------------------------
ElBad(s, e) ==
  IF e.o \notin DOMAIN s.ops THEN {"C09", "C10"} ELSE
  LET op == s.ops[e.o]
      i  == NextIdx(op)
  IN If(~e.ok, {"C09", "C10"}) \cup If(~e.cok, {"C11", "C10"})
     \cup If(i = 0 \/ op.ab \/ op.pan, {"C10"})
     \cup If(i > 0 /\ op.chain[i] # e.n, {"C10"})
     \cup If(Range(e.vis) # op.vis, {"C10"})
     \cup If(~MayStart(s, e.o), {"C13"})

OutBad(s, e) ==
  IF e.c \notin DOMAIN s.cs THEN {"C11"} ELSE
  CASE e.k = "rsp" /\ e.n = 0 ->
         If(e.o \notin DOMAIN s.ops, {"C10", "C11"}) \cup
         If(e.o \in DOMAIN s.ops, LET op == s.ops[e.o] IN
            If(op.c # e.c \/ ~e.ok, {"C11"})
            \cup If(op.auto > 0 \/ op.k # "req" \/ AutoIdx(op) = 0 \/ (op.ab /\ AutoIdx(op) > op.abAt), {"C10", "C11"}))
    [] e.k = "rsp" /\ e.n > 0 ->
         If(<<e.o, e.n>> \notin DOMAIN s.wr, {"C11"}) \cup
         If(<<e.o, e.n>> \in DOMAIN s.wr, LET w == s.wr[<<e.o, e.n>>] IN
            If(~e.ok \/ w.out \/ s.ops[e.o].c # e.c \/ s.ops[e.o].k # "req" \/ (w.ret /\ w.res \in Refusals), {"C11"}))
    [] e.k = "bc" ->
         If(e.n \notin DOMAIN s.bs, {"C16"}) \cup
         If(e.n \in DOMAIN s.bs, LET b == s.bs[e.n] IN
            If(~e.ok \/ e.c \in b.out \/ ~(b.all \/ e.c \in b.f) \/ e.c \in b.gone, {"C16"}))
    [] e.k = "sc" -> If(e.n \notin DOMAIN s.sc \/ ~e.ok, {"C11"})
    [] e.k = "pong" -> If(s.cs[e.c].pongs >= s.cs[e.c].pings, {"C11"})
    [] OTHER -> {"C11", "C09"} \cup If(DOMAIN s.bs # {}, {"C16"})

WRetBad(s, e) ==
  LET w == s.wr[<<e.o, e.n>>]
      op == s.ops[e.o]
  IN If((e.res = "notify") # (op.k = "ntf"), {"C11"})
     \cup If(e.res = "stopped" /\ Healthy(s, op.c), {"C11"})
     \cup If(e.res = "timeout" /\ (w.tmo < 0 \/ e.t < w.t0 + w.tmo), {"C11"})
     \cup If(e.res = "overstock" /\ (w.tmo # 0 \/ Cardinality(Items(s, op.c)) <= s.cfg.q), {"C11"})
     \cup If(e.res = "reconnecting", {"C11"})
     \cup If(e.res = "other" /\ Healthy(s, op.c), {"C11"})
     \cup If(w.out /\ e.res \in Refusals, {"C11"})

CloseBad(s, e) ==
  IF e.c \notin DOMAIN s.cs THEN {} ELSE
  LET x == s.cs[e.c] IN
  IF ~Healthy(s, e.c) THEN {}
  ELSE IF x.on = 0
  THEN \* refused: only when the maximum may be reached
       If(~(s.cfg.maxload > 0 /\ Cardinality({d \in x.may : TRUE}) >= s.cfg.maxload), {"C15", "C14"})
  ELSE {"C11", "C14"} \cup If(s.cfg.maxload > 0, {"C15"}) \cup If(DOMAIN s.bs # {}, {"C16"}) \cup If(s.bads > 0, {"C09"})

QuietOps(s, e) ==
  UNION { LET op == s.ops[o]
              c == op.c
              h == Healthy(s, c)
              rok == ~(s.cs[c].blk /\ (s.cs[c].pings > 0 \/ \E p \in Before(s, o) \cup {o} : AutoDue(s.ops[p])))
              started == op.pos > 0
          IN
          If(h /\ rok /\ ~started /\ NextIdx(op) > 0 /\ MayStart(s, o), {"C09", "C10", "C13"})
          \cup If(h /\ started /\ op.open = 0 /\ ~Finished(op) /\ ~(s.cs[c].blk /\ AutoDue(op)), {"C10"})
          \cup If(op.open > 0 /\ ~op.gate /\ PendW(s, o) = {} /\ ~(s.cs[c].blk /\ AutoDue(op)), {"C10", "C13"})
          \cup If(h /\ rok /\ ~s.cs[c].blk /\ AutoDue(op) /\ Finished(op) /\ op.auto = 0 /\ MayStart(s, o), {"C10", "C11"})
          : o \in DOMAIN s.ops }

QuietWr(s, e) ==
  UNION { LET w == s.wr[x]
              c == s.ops[x[1]].c
              h == Healthy(s, c)
              over == w.tmo >= 0 /\ e.t > w.t0 + w.tmo + Slack
          IN
          If(h /\ ~s.cs[c].blk /\ ~w.ret, {"C11"})
          \cup If(~s.cfg.direct /\ ~w.ret /\ over, {"C11"})
          \cup If(~w.ret /\ (s.cs[c].eof \/ s.cs[c].closed) /\ ~RecvStuck(s, c), {"C17"})
          \cup If(h /\ ~s.cs[c].blk /\ w.ret /\ w.res = "ok" /\ ~w.out, {"C11"})
          : x \in DOMAIN s.wr }

QuietConns(s, e) ==
  LET mem == Range(e.mem)
      busy == AccBusy(s)
      live == {c \in Taken0(s) : ~RefusedLike(s, c) /\ s.cs[c].disc = 0}
  IN
  UNION { LET x == s.cs[c]
              stuck == RecvStuck(s, c)
          IN
          If(x.on > 1 \/ x.disc > 1, {"C14"})
          \cup If(~busy /\ ~RefusedLike(s, c) /\ x.on # 1, {"C14"})
          \cup If(RefusedLike(s, c) /\ (x.outs > 0 \/ x.disc > 0 \/ c \in mem), {"C15"})
          \cup If((x.eof \/ x.closed \/ x.drop \/ x.fatal \/ x.stopc) /\ ~RefusedLike(s, c) /\ ~stuck /\ x.disc # 1, {"C14"} \cup If(x.fatal, {"C09"}))
          \cup If(x.fatal /\ ~stuck /\ ~x.closed, {"C09"})
          \cup If(x.disc > 0 /\ ~x.closed, {"C14"})
          \cup If(x.disc > 0 /\ c \in mem, {"C14"})
          \cup If(~busy /\ ~s.stop /\ Healthy(s, c) /\ c \notin mem, {"C14"})
          \cup If(Healthy(s, c) /\ ~stuck /\ c \in Range(e.un), {"C09", "C13"})
          \cup If(Healthy(s, c) /\ c \in Range(e.par), {"C11"})
          : c \in Taken0(s) }
  \cup If(~busy /\ e.load # Cardinality(live), {"C14"} \cup If(s.cfg.maxload > 0, {"C15"}))
  \cup If(~(mem \subseteq Taken0(s)), {"C14"})
  \cup If(~busy /\ ~s.stop /\ e.t > s.accErr + Slack /\ Taken0(s) # DOMAIN s.cs, {"C14"})

QuietBc(s, e) ==
  UNION { LET b == s.bs[x] IN
          If(~b.ret /\ ~(s.cfg.direct /\ \E c \in DOMAIN s.cs : s.cs[c].blk), {"C16"})
          \cup If(b.ret /\ \E c \in b.due : Healthy(s, c) /\ ~s.cs[c].blk /\ c \notin b.out, {"C16"})
          : x \in DOMAIN s.bs }
  \cup UNION { LET k == s.sc[n] IN If(~k.ret /\ (s.cs[k.c].eof \/ s.cs[k.c].closed) /\ ~RecvStuck(s, k.c), {"C17"}) : n \in DOMAIN s.sc }

QuietStop(s, e) ==
  LET busy == AccBusy(s)
      due == s.stop /\ ~busy /\ e.t > s.accErr + Slack
  IN
     If(s.stop /\ ~e.lnclosed, {"C17"})
  \cup If(due /\ (s.served \/ ~s.stopRet \/ Range(e.mem) # {}), {"C17"})
  \cup If(due /\ \E c \in Taken0(s) : ~RefusedLike(s, c) /\ (~s.cs[c].closed \/ (~RecvStuck(s, c) /\ s.cs[c].disc # 1)), {"C17"})
  \cup If(s.stop /\ ~s.stopRet /\ s.stopk = "shut" /\ e.t > s.stopT + s.stopTmo + Slack, {"C17"})
  \cup If(s.stop /\ ~s.stopRet /\ s.stopk = "stop" /\ e.t > s.stopT + 1000 + Slack, {"C17"})
  \cup If(~s.stop /\ ~s.served, {"C17", "C14"})

Bad0(s, e) ==
  CASE e.e = "El"   -> ElBad(s, e)
    [] e.e = "Out"  -> OutBad(s, e)
    [] e.e = "BadOut" -> {"C11"} \cup If(DOMAIN s.bs # {}, {"C16"})
    [] e.e = "WRet" -> WRetBad(s, e)
    [] e.e = "CliClose" -> CloseBad(s, e)
    [] e.e = "OnConn" ->
         If(s.cs[e.c].on > 0, {"C14"})
         \cup If(s.cs[e.c].refused, {"C15"})
         \cup If(s.cfg.maxload > 0 /\ Cardinality({d \in s.cs[e.c].may : Healthy(s, d) /\ s.cs[d].on > 0}) >= s.cfg.maxload, {"C15"})
    [] e.e = "OnDisc" -> If(s.cs[e.c].disc > 0, {"C14"})
    [] e.e = "Acc" -> If(s.stop /\ s.stopRet /\ e.t > s.stopT, {"C17"})
    [] e.e = "SrvStopRet" ->
         IF s.stopk = "shut" THEN If(e.res = "timeout" /\ e.t < s.stopT + s.stopTmo, {"C17"}) \cup If(e.res \notin {"ok", "timeout"}, {"C17"})
                                  \cup If(e.res = "ok" /\ AccBusy(s), {"C17"})
         ELSE If(e.res \notin {"ok", "timeout"}, {"C17"})
    [] e.e = "Quiet" -> QuietOps(s, e) \cup QuietWr(s, e) \cup QuietConns(s, e) \cup QuietBc(s, e) \cup QuietStop(s, e)
    [] e.e = "Leak"  -> {"C17", "C14"}
    [] e.e \in {"Crash", "Hang"} -> AllProps
    [] OTHER -> {}

\* a panic in user code must not change anything for others
Bad(s, e) == LET b == Bad0(s, e) IN b \cup If(b # {} /\ s.pans > 0, {"C12"})
=============================================================================
