------------------------------ MODULE ClientSys ------------------------------
(* System model of one arpc client: submitters, send queue, send loop, receive
   loop with reconnect, timers, stop - one action per critical section of the
   code - and, as separate actions, an adversarial environment (peer, network,
   dialer, user, clock).  Every observable event is judged by ClientMon; the
   invariant NoViolation says no behaviour of the design breaks a property.
   Time moves only when nothing else can (as in the virtual-time harness).       *)
EXTENDS ClientMon, TLC, Json

CONSTANTS NOps, QSize, MaxRc, Side, Batch, MaxT, MaxConn, MaxEnv, Kinds, WithStop

VARIABLES t, run, rec, chc, q, snd, rcv, tries, wake, conn, cst, inb, sess, ah, pc, info, dm, blk, stopped,
          nenv, justQ, mon, viol, hist

vars == <<t, run, rec, chc, q, snd, rcv, tries, wake, conn, cst, inb, sess, ah, pc, info, dm, blk, stopped, nenv, justQ, mon, viol, hist>>

Ops == 1..NOps
Cfg == [q |-> QSize, direct |-> FALSE, maxrc |-> MaxRc, side |-> Side, batch |-> Batch, sbuf |-> 64]

\* judge a sequence of events
RECURSIVE Fold(_, _, _)
Fold(m, v, es) == IF es = <<>> THEN [m |-> m, v |-> v]
                  ELSE Fold(Apply(m, Head(es)), v \cup Bad(m, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>

DoneRsp == "rsp"
EStart(o, k, tmo) == [e |-> "Start", o |-> o, k |-> k, tmo |-> tmo, bad |-> FALSE, t |-> t]
ERet(o, r, d)  == [e |-> "Ret", o |-> o, res |-> r, d |-> d, t |-> t]
ECb(o, r, d)   == [e |-> "Cb", o |-> o, res |-> r, d |-> d, t |-> t]
EOut(o, c)     == [e |-> "Out", c |-> c, o |-> o, seq |-> o + 1, cmd |-> IF info[o].k \in {"call","async"} THEN 1 ELSE 3,
                   async |-> info[o].k # "call", err |-> FALSE, clean |-> TRUE, mok |-> TRUE, dok |-> TRUE, t |-> t]
EConn(n, c)    == [e |-> n, c |-> c, t |-> t]
EPlain(n)      == [e |-> n, t |-> t]

Init ==
  /\ t = 0 /\ run = TRUE /\ rec = FALSE /\ chc = FALSE /\ q = <<>> /\ snd = <<"idle">>
  /\ rcv = "recv" /\ tries = 0 /\ wake = 0 /\ conn = 1
  /\ cst = (1 :> [drop |-> FALSE, closed |-> FALSE]) /\ inb = <<>>
  /\ sess = [o \in Ops |-> "none"] /\ ah = {} /\ pc = [o \in Ops |-> "idle"]
  /\ info = [o \in Ops |-> [k |-> "none", dl |-> Inf, zero |-> FALSE, canc |-> FALSE]]
  /\ dm = "ok" /\ blk = FALSE /\ stopped = FALSE /\ nenv = 0 /\ justQ = TRUE /\ hist = <<>>
  /\ LET r == Fold(Init0(Cfg), {}, << [e |-> "Dial", c |-> 1, t |-> 0],
                                      [e |-> "DialRet", c |-> 1, ok |-> TRUE, t |-> 0],
                                      [e |-> "OnConn", t |-> 0],
                                      [e |-> "Quiet", unread |-> 0, partial |-> 0, held |-> FALSE, t |-> 0] >>)
     IN mon = r.m /\ viol = r.v

NoEnv == UNCHANGED <<nenv, hist, dm, blk, t>> /\ justQ' = FALSE
ConnU == UNCHANGED <<conn, cst, inb>>

-----------------------------------------------------------------------------
(* Submitters *)
Finish(o, r, d) == pc' = [pc EXCEPT ![o] = "done"] /\ Emit(<<ERet(o, r, d)>>)

Check(o) ==
  /\ pc[o] = "chk"
  /\ IF ~run THEN Finish(o, "stopped", "")
     ELSE IF rec THEN Finish(o, "reconnecting", "")
     ELSE pc' = [pc EXCEPT ![o] = "reg"] /\ Silent
  /\ UNCHANGED <<run, rec, chc, q, snd, rcv, tries, wake, sess, ah, info, stopped>> /\ ConnU /\ NoEnv

Reg(o) ==
  /\ pc[o] = "reg"
  /\ \/ /\ info[o].k = "call"
        /\ UNCHANGED ah
        /\ IF run THEN sess' = [sess EXCEPT ![o] = "open"] /\ pc' = [pc EXCEPT ![o] = "push"] /\ Silent
           ELSE UNCHANGED sess /\ Finish(o, "stopped", "")
     \/ /\ info[o].k = "async"
        /\ IF run THEN ah' = ah \cup {o} /\ pc' = [pc EXCEPT ![o] = "push"] /\ Silent
           ELSE UNCHANGED ah /\ Finish(o, "stopped", "")
        /\ UNCHANGED sess
     \/ /\ info[o].k = "notify" /\ pc' = [pc EXCEPT ![o] = "push"] /\ Silent /\ UNCHANGED <<sess, ah>>
  /\ UNCHANGED <<run, rec, chc, q, snd, rcv, tries, wake, info, stopped>> /\ ConnU /\ NoEnv

Push(o) ==
  /\ pc[o] = "push"
  /\ \/ /\ Len(q) < QSize
        /\ q' = Append(q, o) /\ UNCHANGED <<sess, ah>>
        /\ IF info[o].k = "call" THEN pc' = [pc EXCEPT ![o] = "wait"] /\ Silent ELSE Finish(o, "ok", "")
     \/ /\ chc /\ Finish(o, "stopped", "") /\ UNCHANGED q /\ sess' = [sess EXCEPT ![o] = "none"] /\ ah' = ah \ {o}
     \/ /\ ~info[o].zero /\ (t >= info[o].dl \/ info[o].canc)
        /\ Finish(o, "timeout", "") /\ UNCHANGED q /\ sess' = [sess EXCEPT ![o] = "none"] /\ ah' = ah \ {o}
     \/ /\ info[o].zero /\ Len(q) >= QSize /\ ~chc
        /\ Finish(o, "overstock", "") /\ UNCHANGED <<q, sess, ah>>
  /\ UNCHANGED <<run, rec, chc, snd, rcv, tries, wake, info, stopped>> /\ ConnU /\ NoEnv

Await(o) ==
  /\ pc[o] = "wait"
  /\ \/ sess[o] = "rsp" /\ Finish(o, "ok", "r")
     \/ sess[o] = "closed" /\ Finish(o, "reconnecting", "")
     \/ (t >= info[o].dl \/ info[o].canc) /\ Finish(o, "timeout", "")
     \/ chc /\ Finish(o, "stopped", "")
  /\ sess' = [sess EXCEPT ![o] = "none"]
  /\ UNCHANGED <<run, rec, chc, q, snd, rcv, tries, wake, ah, info, stopped>> /\ ConnU /\ NoEnv

Timer(o) ==
  /\ o \in ah /\ t >= info[o].dl
  /\ ah' = ah \ {o} /\ Emit(<<ECb(o, "timeout", "")>>)
  /\ UNCHANGED <<run, rec, chc, q, snd, rcv, tries, wake, sess, pc, info, stopped>> /\ ConnU /\ NoEnv

-----------------------------------------------------------------------------
(* Send loop: takes a message, looks whether the link is up, may add what is queued
   meanwhile, and writes all of it at once to the connection of that moment *)
Take ==
  /\ snd = <<"idle">> /\ q # <<>>
  /\ snd' = <<"has", <<Head(q)>>>> /\ q' = Tail(q)
  /\ Silent
  /\ UNCHANGED <<run, rec, chc, rcv, tries, wake, sess, ah, pc, info, stopped>> /\ ConnU /\ NoEnv

More ==
  /\ Batch /\ snd[1] = "go" /\ q # <<>>
  /\ snd' = <<"go", Append(snd[2], Head(q))>> /\ q' = Tail(q)
  /\ Silent
  /\ UNCHANGED <<run, rec, chc, rcv, tries, wake, sess, ah, pc, info, stopped>> /\ ConnU /\ NoEnv

Drain ==  \* the loop ends when the client is closed
  /\ snd = <<"idle">> /\ chc /\ snd' = <<"exit">> /\ q' = <<>> /\ Silent
  /\ UNCHANGED <<run, rec, chc, rcv, tries, wake, sess, ah, pc, info, stopped>> /\ ConnU /\ NoEnv

RECURSIVE SeqMap(_, _)
SeqMap(F(_), s) == IF s = <<>> THEN <<>> ELSE <<F(Head(s))>> \o SeqMap(F, Tail(s))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

LookOrDrop ==
  /\ snd[1] = "has"
  /\ LET ms == snd[2] IN
     IF rec
     THEN LET cbs == {o \in ah : \E i \in 1..Len(ms) : ms[i] = o} IN
          /\ sess' = [o \in Ops |-> IF (\E i \in 1..Len(ms) : ms[i] = o) /\ sess[o] = "open" THEN "closed" ELSE sess[o]]
          /\ ah' = ah \ cbs /\ snd' = <<"idle">>
          /\ Emit(SeqMap(LAMBDA o : ECb(o, "reconnecting", ""), SetSeq(cbs)))
     ELSE UNCHANGED <<sess, ah>> /\ snd' = <<"go", ms>> /\ Silent
  /\ UNCHANGED <<run, rec, chc, q, rcv, tries, wake, pc, info, stopped>> /\ ConnU /\ NoEnv

Send ==
  /\ snd[1] = "go"
  /\ LET ms == snd[2] IN
     IF cst[conn].closed THEN snd' = <<"idle">> /\ Silent /\ UNCHANGED cst
     ELSE IF cst[conn].drop
     THEN snd' = <<"idle">> /\ Emit(<<EConn("WErr", conn), EConn("CliClose", conn)>>)
          /\ cst' = [cst EXCEPT ![conn].closed = TRUE]
     ELSE snd' = <<"wr", conn>> /\ UNCHANGED cst /\ Emit(SeqMap(LAMBDA o : EOut(o, conn), ms))
  /\ UNCHANGED <<run, rec, chc, q, rcv, tries, wake, sess, ah, pc, info, stopped, conn, inb>> /\ NoEnv

WriteDone ==
  /\ snd[1] = "wr"
  /\ LET c == snd[2] IN
     \/ cst[c].closed /\ Silent /\ UNCHANGED cst
     \/ ~cst[c].closed /\ cst[c].drop /\ Emit(<<EConn("WErr", c), EConn("CliClose", c)>>)
        /\ cst' = [cst EXCEPT ![c].closed = TRUE]
     \/ ~cst[c].closed /\ ~cst[c].drop /\ ~blk /\ Silent /\ UNCHANGED cst
  /\ snd' = <<"idle">>
  /\ UNCHANGED <<run, rec, chc, q, rcv, tries, wake, sess, ah, pc, info, stopped, conn, inb>> /\ NoEnv

-----------------------------------------------------------------------------
(* Receive loop *)
RcvU == UNCHANGED <<run, chc, q, snd, info, stopped, pc>>

Deliver ==
  /\ rcv = "recv" /\ inb # <<>> /\ ~cst[conn].closed
  /\ inb' = Tail(inb)
  /\ LET o == Head(inb) IN
     IF o \in ah THEN ah' = ah \ {o} /\ Emit(<<ECb(o, "ok", "r")>>) /\ UNCHANGED sess
     ELSE /\ UNCHANGED ah /\ Silent
          /\ sess' = IF sess[o] = "open" THEN [sess EXCEPT ![o] = "rsp"] ELSE sess
  /\ UNCHANGED <<rec, rcv, tries, wake, conn, cst>> /\ RcvU /\ NoEnv

Lost0 ==
  /\ rcv = "recv" /\ (cst[conn].closed \/ (inb = <<>> /\ cst[conn].drop))
  /\ rcv' = "lost1" /\ Emit(IF cst[conn].closed THEN <<>> ELSE <<EConn("EofSeen", conn)>>)
  /\ UNCHANGED <<rec, tries, wake, sess, ah>> /\ ConnU /\ RcvU /\ NoEnv

Lost1 ==
  /\ rcv = "lost1" /\ (IF Side = "srv" THEN UNCHANGED rec /\ rcv' = "clean" ELSE rec' = TRUE /\ rcv' = "lost2")
  /\ Emit(IF cst[conn].closed THEN <<>> ELSE <<EConn("CliClose", conn)>>)
  /\ cst' = [cst EXCEPT ![conn].closed = TRUE] /\ UNCHANGED <<conn, inb, tries, wake, sess, ah>>
  /\ RcvU /\ NoEnv

Lost2 == /\ rcv = "lost2" /\ rcv' = "lost3" /\ Silent
         /\ sess' = [o \in Ops |-> IF sess[o] = "open" THEN "closed" ELSE sess[o]]
         /\ UNCHANGED <<rec, tries, wake, ah>> /\ ConnU /\ RcvU /\ NoEnv

Lost3 == /\ rcv = "lost3" /\ rcv' = "try" /\ tries' = 0
         /\ ah' = {} /\ Emit(SeqMap(LAMBDA o : ECb(o, "reconnecting", ""), SetSeq(ah)))
         /\ UNCHANGED <<rec, wake, sess>> /\ ConnU /\ RcvU /\ NoEnv

Try == /\ rcv = "try"
       /\ IF run /\ (MaxRc = 0 \/ tries < MaxRc)
          THEN rcv' = "dial" /\ tries' = tries + 1 /\ Emit(<<EConn("Dial", conn + 1)>>)
          ELSE rcv' = "clean" /\ UNCHANGED tries /\ Silent
       /\ UNCHANGED <<rec, wake, sess, ah>> /\ ConnU /\ RcvU /\ NoEnv

Dialed ==
  /\ rcv = "dial" /\ dm # "hold"
  /\ IF dm = "ok" /\ conn < MaxConn
     THEN /\ inb' = <<>>
          /\ IF run
             THEN /\ conn' = conn + 1 /\ rec' = FALSE /\ rcv' = "recv"
                  /\ cst' = (conn + 1 :> [drop |-> FALSE, closed |-> FALSE]) @@ cst
                  /\ Emit(<<[e |-> "DialRet", c |-> conn + 1, ok |-> TRUE, t |-> t], EPlain("OnConn")>>)
             ELSE /\ conn' = conn + 1 /\ rcv' = "recv" /\ UNCHANGED rec   \* stopped meanwhile
                  /\ cst' = (conn + 1 :> [drop |-> FALSE, closed |-> TRUE]) @@ cst
                  /\ Emit(<<[e |-> "DialRet", c |-> conn + 1, ok |-> TRUE, t |-> t], EConn("CliClose", conn + 1)>>)
          /\ UNCHANGED wake
     ELSE /\ rcv' = "sleep" /\ wake' = t + Retry /\ UNCHANGED <<conn, cst, inb, rec>>
          /\ Emit(<<[e |-> "DialRet", c |-> conn + 1, ok |-> FALSE, t |-> t]>>)
  /\ UNCHANGED <<tries, sess, ah>> /\ RcvU /\ NoEnv

Wake == /\ rcv = "sleep" /\ t >= wake /\ rcv' = "try" /\ Silent
        /\ UNCHANGED <<rec, tries, wake, sess, ah>> /\ ConnU /\ RcvU /\ NoEnv

Clean == /\ rcv = "clean" /\ rcv' = "exit" /\ run' = FALSE /\ chc' = TRUE /\ Emit(<<EPlain("OnDisc")>>)
         /\ UNCHANGED <<rec, tries, wake, sess, ah, q, snd, info, stopped, pc>> /\ ConnU /\ NoEnv

SysNext == \/ \E o \in Ops : Check(o) \/ Reg(o) \/ Push(o) \/ Await(o) \/ Timer(o)
           \/ Take \/ More \/ Drain \/ LookOrDrop \/ Send \/ WriteDone
           \/ Deliver \/ Lost0 \/ Lost1 \/ Lost2 \/ Lost3 \/ Try \/ Dialed \/ Wake \/ Clean

-----------------------------------------------------------------------------
(* Environment.  A step may come at any moment; h is what the scenario replays. *)
EnvStep(h) == /\ nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE
              /\ hist' = Append(hist, [q |-> justQ] @@ h)
SysU == UNCHANGED <<run, rec, chc, q, snd, rcv, tries, wake, sess, ah>>

Start(o, k, tmo) ==
  /\ pc[o] = "idle" /\ (IF o = 1 THEN TRUE ELSE pc[o-1] # "idle")
  /\ pc' = [pc EXCEPT ![o] = "chk"]
  /\ info' = [info EXCEPT ![o] = [k |-> k, dl |-> IF tmo = 0 THEN Inf ELSE t + tmo, zero |-> tmo = 0, canc |-> FALSE]]
  /\ Emit(<<EStart(o, k, tmo)>>)
  /\ EnvStep([a |-> "start", o |-> o, k |-> k, tmo |-> tmo])
  /\ SysU /\ ConnU /\ UNCHANGED <<t, dm, blk, stopped>>

Reply(o) ==
  /\ mon.ops # Empty /\ o \in DOMAIN mon.ops /\ mon.ops[o].out /\ info[o].k # "notify"
  /\ ~cst[conn].drop /\ ~cst[conn].closed /\ Len(inb) < 2
  /\ inb' = Append(inb, o)
  /\ Emit(<<[e |-> "Feed", c |-> conn, k |-> "rsp", o |-> o, seq |-> o + 1, d |-> "r", err |-> FALSE, t |-> t]>>)
  /\ EnvStep([a |-> "reply", o |-> o])
  /\ SysU /\ UNCHANGED <<conn, cst, pc, info, t, dm, blk, stopped>>

Drop == /\ ~cst[conn].drop /\ ~cst[conn].closed
        /\ cst' = [cst EXCEPT ![conn].drop = TRUE]
        /\ Emit(<<EConn("Drop", conn)>>) /\ EnvStep([a |-> "drop"])
        /\ SysU /\ UNCHANGED <<conn, inb, pc, info, t, dm, blk, stopped>>

BlockStep == /\ blk' = ~blk /\ Emit(<<[e |-> "BlockW", on |-> ~blk, t |-> t]>>) /\ EnvStep([a |-> "blockw", on |-> ~blk])
         /\ SysU /\ ConnU /\ UNCHANGED <<pc, info, t, dm, stopped>>

DialMode == /\ Side = "cli" /\ \E m \in {"ok", "fail", "hold"} \ {dm} : dm' = m /\ EnvStep([a |-> "dialmode", m |-> m])
            /\ Silent /\ SysU /\ ConnU /\ UNCHANGED <<pc, info, t, blk, stopped>>

StopStep == /\ WithStop /\ ~stopped /\ stopped' = TRUE /\ run' = FALSE
        /\ cst' = [cst EXCEPT ![conn].closed = TRUE]
        /\ Emit(<<EPlain("Stop")>> \o (IF cst[conn].closed THEN <<>> ELSE <<EConn("CliClose", conn)>>) \o <<EPlain("StopRet")>>)
        /\ EnvStep([a |-> "stop"])
        /\ UNCHANGED <<rec, chc, q, snd, rcv, tries, wake, sess, ah, conn, inb, pc, info, t, dm, blk>>

Quiet == /\ ~justQ /\ ~ENABLED SysNext
         /\ Emit(<<[e |-> "Quiet", unread |-> IF cst[conn].closed THEN 0 ELSE Len(inb), partial |-> 0,
                    held |-> rcv = "dial", t |-> t]>>)
         /\ justQ' = TRUE
         /\ SysU /\ ConnU /\ UNCHANGED <<pc, info, t, dm, blk, stopped, nenv, hist>>

Advance == /\ justQ /\ \E d \in {150, 1100} : t + d <= MaxT /\ t' = t + d
              /\ hist' = Append(hist, [a |-> "adv", dt |-> d])
           /\ justQ' = FALSE /\ Silent
           /\ SysU /\ ConnU /\ UNCHANGED <<pc, info, dm, blk, stopped, nenv>>

EnvNext == \/ \E o \in Ops, k \in Kinds : (IF k = "notify" THEN Start(o, k, 0) \/ Start(o, k, 100) ELSE Start(o, k, 100))
           \/ \E o \in Ops : Reply(o)
           \/ Drop \/ BlockStep \/ DialMode \/ StopStep \/ Quiet \/ Advance

Next == SysNext \/ EnvNext
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
TypeOK == Len(q) <= QSize /\ \A o \in ah : info[o].k = "async"
\* a non-vacuity witness: some behaviour completes every kind of operation in every way
View == <<t, run, rec, chc, q, snd, rcv, tries, wake, conn, cst, inb, sess, ah, pc, info, dm, blk, stopped, nenv, justQ, mon, viol>>

\* generation: print the environment's part of a behaviour once it is long enough
GenDone == (nenv = MaxEnv /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
