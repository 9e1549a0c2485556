------------------------------ MODULE StreamSys ------------------------------
(* System model of streams over one connection at a time: per-end send queue and send
   loop, an ordered wire per direction, per-end receive loop which is held up by a full
   stream buffer, half-closes, connection loss with reconnect, and stop.
   Judged by StreamMon.                                                        *)
EXTENDS StreamMon, TLC, Json

CONSTANTS NStr, NVal, QSize, SQ, MaxEnv, Acts

VARIABLES t, ep, down, stopped, blk, q, wire, rl, obj, by, sp, rp, nv, nk, nenv, justQ, mon, viol, hist
vars == <<t, ep, down, stopped, blk, q, wire, rl, obj, by, sp, rp, nv, nk, nenv, justQ, mon, viol, hist>>
Str == 1..NStr
Cfg == [sq |-> SQ, direct |-> FALSE]

RECURSIVE Fold(_, _, _)
Fold(m, v, es) == IF es = <<>> THEN [m |-> m, v |-> v] ELSE Fold(Apply(m, Head(es)), v \cup Bad(m, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>

NoObj == [ex |-> FALSE, ep |-> 0, buf |-> <<>>, reof |-> FALSE, rc |-> FALSE, sc |-> FALSE]
Init ==
  /\ t = 0 /\ ep = 1 /\ down = FALSE /\ stopped = FALSE /\ blk = {} /\ q = [y \in Ends |-> <<>>] /\ wire = [y \in Ends |-> <<>>]
  /\ rl = [y \in Ends |-> <<>>] /\ obj = [x \in Str |-> [y \in Ends |-> NoObj]] /\ by = [x \in Str |-> "-"]
  /\ sp = [x \in Str |-> [y \in Ends |-> <<>>]] /\ rp = [x \in Str |-> [y \in Ends |-> 0]]
  /\ nv = [x \in Str |-> [y \in Ends |-> 0]] /\ nk = [x \in Str |-> [y \in Ends |-> 0]]
  /\ nenv = 0 /\ justQ = TRUE /\ hist = <<>>
  /\ mon = Apply(Init0(Cfg), [e |-> "Link", ep |-> 1, t |-> 0]) /\ viol = {}
NoEnv == UNCHANGED <<nenv, hist, t, by, nv, nk>> /\ justQ' = FALSE
Gone(x) == obj[x]["c"].ep # ep \/ down \/ stopped
Start(x, y) == [e |-> "Start", x |-> x, by |-> y, t |-> t]
RecvEv(x, y, res, n) == [e |-> "RecvE", x |-> x, by |-> y, k |-> rp[x][y], res |-> res, n |-> n, t |-> t]

SendLoop(y) ==
  /\ q[y] # <<>> /\ ~down /\ ~stopped /\ y \notin blk
  /\ q' = [q EXCEPT ![y] = Tail(@)] /\ wire' = [wire EXCEPT ![y] = Append(@, Head(q[y]))]
  /\ Silent /\ UNCHANGED <<ep, down, stopped, blk, rl, obj, sp, rp>> /\ NoEnv

\* frame f = <<x, n, eof>> reaches end y
Put(y, f, ob) == LET o == ob[f[1]][y]
                     o1 == IF f[2] > 0 /\ ~o.rc THEN [o EXCEPT !.buf = Append(@, f[2])] ELSE o
                     o2 == IF f[3] THEN [o1 EXCEPT !.reof = TRUE] ELSE o1
                 IN [ob EXCEPT ![f[1]][y] = o2]
Fits(y, f, ob) == f[2] = 0 \/ ob[f[1]][y].rc \/ Len(ob[f[1]][y].buf) < SQ
Deliver(y) ==
  /\ rl[y] = <<>> /\ wire[Opp(y)] # <<>> /\ ~down /\ ~stopped
  /\ LET f == Head(wire[Opp(y)])
         new == ~obj[f[1]][y].ex
         ob == IF new THEN [obj EXCEPT ![f[1]][y] = [NoObj EXCEPT !.ex = TRUE, !.ep = ep]] ELSE obj
     IN /\ wire' = [wire EXCEPT ![Opp(y)] = Tail(@)]
        /\ IF Fits(y, f, ob) THEN obj' = Put(y, f, ob) /\ UNCHANGED rl ELSE obj' = ob /\ rl' = [rl EXCEPT ![y] = f]
        /\ IF new THEN Emit(<<Start(f[1], y)>>) ELSE Silent
  /\ UNCHANGED <<ep, down, stopped, blk, q, sp, rp>> /\ NoEnv
Resume(y) ==
  /\ rl[y] # <<>> /\ (Fits(y, rl[y], obj) \/ stopped)
  /\ rl' = [rl EXCEPT ![y] = <<>>] /\ obj' = IF Fits(y, rl[y], obj) THEN Put(y, rl[y], obj) ELSE obj
  /\ Silent /\ UNCHANGED <<ep, down, stopped, blk, q, wire, sp, rp>> /\ NoEnv
\* the loss of the connection is noticed by a receive loop which is not held up
Notice ==
  /\ down /\ ~stopped /\ rl["c"] = <<>> /\ rl["s"] = <<>>
  /\ ep' = ep + 1 /\ down' = FALSE /\ q' = [y \in Ends |-> <<>>] /\ wire' = [y \in Ends |-> <<>>]
  /\ Emit(<<[e |-> "Link", ep |-> ep + 1, t |-> t]>>)
  /\ UNCHANGED <<stopped, blk, rl, obj, sp, rp>> /\ NoEnv
RecvFin(x, y) ==
  /\ rp[x][y] > 0
  /\ LET o == obj[x][y] IN
     \/ o.buf # <<>> /\ obj' = [obj EXCEPT ![x][y].buf = Tail(@)] /\ Emit(<<RecvEv(x, y, "val", Head(o.buf))>>)
     \/ o.buf = <<>> /\ (o.reof \/ o.rc) /\ Emit(<<RecvEv(x, y, "eof", 0)>>) /\ UNCHANGED obj
     \/ o.buf = <<>> /\ Gone(x) /\ ~down /\ Emit(<<RecvEv(x, y, IF y = "c" /\ ~stopped THEN "eof" ELSE "stopped", 0)>>) /\ UNCHANGED obj
  /\ rp' = [rp EXCEPT ![x][y] = 0]
  /\ UNCHANGED <<ep, down, stopped, blk, q, wire, rl, sp>> /\ NoEnv
SendFin(x, y) ==
  /\ sp[x][y] # <<>>
  /\ LET f == sp[x][y]
         ev(r) == IF f[2] > 0 THEN <<[e |-> "SendE", x |-> x, by |-> y, n |-> f[2], res |-> r, t |-> t]>> ELSE <<>>
     IN \/ Len(q[y]) < QSize /\ ~Gone(x) /\ q' = [q EXCEPT ![y] = Append(@, f)] /\ Emit(ev("ok"))
        \/ Gone(x) /\ ~down /\ Emit(ev("stopped")) /\ UNCHANGED q
  /\ sp' = [sp EXCEPT ![x][y] = <<>>]
  /\ UNCHANGED <<ep, down, stopped, blk, wire, rl, obj, rp>> /\ NoEnv

SysNext == Notice \/ \E y \in Ends : SendLoop(y) \/ Deliver(y) \/ Resume(y) \/ (\E x \in Str : RecvFin(x, y) \/ SendFin(x, y))

-----------------------------------------------------------------------------
EnvStep(h) == /\ nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
Core == UNCHANGED <<t, ep, down, stopped, blk, q, wire, rl>>

Open(x, y) ==
  /\ by[x] = "-" /\ (IF x = 1 THEN TRUE ELSE by[x-1] # "-") /\ ~down /\ ~stopped
  /\ by' = [by EXCEPT ![x] = y] /\ obj' = [obj EXCEPT ![x][y] = [NoObj EXCEPT !.ex = TRUE, !.ep = ep], ![x][Opp(y)].ep = ep]
  /\ Emit(<<[e |-> "Open", x |-> x, by |-> y, t |-> t]>>) /\ EnvStep([a |-> "open", x |-> x, by |-> y])
  /\ Core /\ UNCHANGED <<sp, rp, nv, nk>>
Send(x, y, eof) ==
  /\ obj[x][y].ex /\ sp[x][y] = <<>> /\ nv[x][y] < NVal /\ ~obj[x][y].sc
  /\ nv' = [nv EXCEPT ![x][y] = @ + 1] /\ sp' = [sp EXCEPT ![x][y] = <<x, nv[x][y] + 1, eof>>]
  /\ obj' = [obj EXCEPT ![x][y].sc = eof]
  /\ Emit(<<[e |-> "SendB", x |-> x, by |-> y, n |-> nv[x][y] + 1, tmo |-> -1, eof |-> eof, t |-> t]>>)
  /\ EnvStep([a |-> "send", x |-> x, by |-> y, eof |-> eof]) /\ Core /\ UNCHANGED <<rp, nk, by>>
Cls(x, y) ==
  /\ obj[x][y].ex /\ sp[x][y] = <<>> /\ ~obj[x][y].sc
  /\ obj' = [obj EXCEPT ![x][y].sc = TRUE] /\ sp' = [sp EXCEPT ![x][y] = <<x, 0, TRUE>>]
  /\ Emit(<<[e |-> "ClsB", x |-> x, by |-> y, tmo |-> -1, t |-> t], [e |-> "ClsE", x |-> x, by |-> y, t |-> t]>>)
  /\ EnvStep([a |-> "cls", x |-> x, by |-> y]) /\ Core /\ UNCHANGED <<rp, nv, nk, by>>
Clr(x, y) ==
  /\ "clr" \in Acts /\ obj[x][y].ex /\ ~obj[x][y].rc /\ obj' = [obj EXCEPT ![x][y].rc = TRUE]
  /\ Emit(<<[e |-> "ClrB", x |-> x, by |-> y, t |-> t]>>) /\ EnvStep([a |-> "clr", x |-> x, by |-> y])
  /\ Core /\ UNCHANGED <<sp, rp, nv, nk, by>>
Recv(x, y) ==
  /\ obj[x][y].ex /\ rp[x][y] = 0 /\ nk[x][y] < NVal + 2
  /\ nk' = [nk EXCEPT ![x][y] = @ + 1] /\ rp' = [rp EXCEPT ![x][y] = nk[x][y] + 1]
  /\ Emit(<<[e |-> "RecvB", x |-> x, by |-> y, k |-> nk[x][y] + 1, tmo |-> -1, t |-> t]>>)
  /\ EnvStep([a |-> "recv", x |-> x, by |-> y]) /\ Core /\ UNCHANGED <<obj, sp, nv, by>>
Block(y) ==
  /\ "blk" \in Acts /\ ~down /\ ~stopped /\ blk' = (IF y \in blk THEN blk \ {y} ELSE blk \cup {y})
  /\ Emit(<<[e |-> "Block", by |-> y, on |-> y \notin blk, t |-> t]>>) /\ EnvStep([a |-> "block", by |-> y, on |-> y \notin blk])
  /\ UNCHANGED <<t, ep, down, stopped, q, wire, rl, obj, sp, rp, nv, nk, by>>
Drop ==
  /\ "drop" \in Acts /\ ~down /\ ~stopped /\ down' = TRUE /\ blk' = {}
  /\ Emit(<<[e |-> "Drop", t |-> t], [e |-> "Block", by |-> "c", on |-> FALSE, t |-> t], [e |-> "Block", by |-> "s", on |-> FALSE, t |-> t]>>)
  /\ EnvStep([a |-> "drop"])
  /\ UNCHANGED <<t, ep, stopped, q, wire, rl, obj, sp, rp, nv, nk, by>>
StopC ==
  /\ "stop" \in Acts /\ ~down /\ ~stopped /\ stopped' = TRUE
  /\ Emit(<<[e |-> "Stop", by |-> "c", t |-> t]>>) /\ EnvStep([a |-> "stop", by |-> "c"])
  /\ UNCHANGED <<t, ep, down, blk, q, wire, rl, obj, sp, rp, nv, nk, by>>
Quiet ==
  /\ ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE /\ Emit(<<[e |-> "Quiet", t |-> t]>>)
  /\ Core /\ UNCHANGED <<obj, sp, rp, nv, nk, by, nenv, hist>>

EnvNext == \/ \E x \in Str, y \in Ends : Open(x, y) \/ Send(x, y, FALSE) \/ Send(x, y, TRUE) \/ Cls(x, y) \/ Clr(x, y) \/ Recv(x, y)
           \/ \E y \in Ends : Block(y)
           \/ Drop \/ StopC \/ Quiet
Next == SysNext \/ EnvNext
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
TypeOK == \A y \in Ends : Len(q[y]) <= QSize
View == <<t, ep, down, stopped, blk, q, wire, rl, obj, by, sp, rp, nv, nk, nenv, justQ, mon, viol>>
GenDone == (nenv = MaxEnv /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
