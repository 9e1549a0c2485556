------------------------------ MODULE ServerSys ------------------------------
(* System model of an arpc server: accept loop, per-connection receive loop, in-line
   and asynchronous handlers, per-connection send queue and send loop, broadcast,
   membership and load, stop; and an adversarial environment.  Judged by ServerMon. *)
EXTENDS ServerMon, TLC, Json

CONSTANTS NConn, NOps, QSize, MaxLoad, MaxEnv, MaxB, WithStop, Acts

VARIABLES t, run, lnc, lq, acc, load, mem, cst, rcv, inb, q, snd, hp, info, cgate, nb, nenv, justQ, mon, viol, hist
vars == <<t, run, lnc, lq, acc, load, mem, cst, rcv, inb, q, snd, hp, info, cgate, nb, nenv, justQ, mon, viol, hist>>

Conns == 1..NConn
Ops == 1..NOps
Prog == << [t |-> "u", n |-> "a", m |-> "", as |-> FALSE], [t |-> "h", n |-> "S", m |-> "/s", as |-> FALSE],
           [t |-> "h", n |-> "A", m |-> "/a", as |-> TRUE] >>
Cfg == [q |-> QSize, direct |-> FALSE, maxload |-> MaxLoad, prog |-> Prog]

RECURSIVE Fold(_, _, _)
Fold(m, v, es) == IF es = <<>> THEN [m |-> m, v |-> v]
                  ELSE Fold(Apply(m, Head(es)), v \cup Bad(m, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
RECURSIVE SeqMap(_, _)
SeqMap(F(_), s) == IF s = <<>> THEN <<>> ELSE <<F(Head(s))>> \o SeqMap(F, Tail(s))
Ev1(n) == [e |-> n, t |-> t]
EvC(n, c) == [e |-> n, c |-> c, t |-> t]
EvO(n, o) == [e |-> n, o |-> o, t |-> t]

Init ==
  /\ t = 0 /\ run = TRUE /\ lnc = FALSE /\ lq = <<>> /\ acc = <<"idle">> /\ load = 0 /\ mem = {}
  /\ cst = [c \in Conns |-> [used |-> FALSE, drop |-> FALSE, closed |-> FALSE, blk |-> FALSE, run |-> FALSE, chc |-> FALSE]]
  /\ rcv = [c \in Conns |-> "none"] /\ inb = [c \in Conns |-> <<>>] /\ q = [c \in Conns |-> <<>>] /\ snd = [c \in Conns |-> "idle"]
  /\ hp = [o \in Ops |-> "none"] /\ info = [o \in Ops |-> [c |-> 0, sync |-> FALSE, gate |-> FALSE, k |-> "req", w |-> FALSE]]
  /\ cgate = FALSE /\ nb = 0 /\ nenv = 0 /\ justQ = TRUE /\ hist = <<>>
  /\ mon = Init0(Cfg) /\ viol = {}

NoEnv == UNCHANGED <<nenv, hist, t, nb, cgate>> /\ justQ' = FALSE
CloseEv(c) == IF cst[c].closed THEN <<>> ELSE <<EvC("CliClose", c)>>

-----------------------------------------------------------------------------
(* Accept loop *)
Accept ==
  /\ acc = <<"idle">> /\ ~lnc /\ lq # <<>>
  /\ lq' = Tail(lq)
  /\ LET c == Head(lq) IN
     IF MaxLoad > 0 /\ load + 1 > MaxLoad
     THEN /\ cst' = [cst EXCEPT ![c].closed = TRUE] /\ UNCHANGED <<load, acc>>
          /\ Emit(<<EvC("Acc", c), EvC("CliClose", c)>>)
     ELSE /\ load' = load + 1 /\ acc' = <<"new", c>> /\ Emit(<<EvC("Acc", c)>>) /\ UNCHANGED cst
  /\ UNCHANGED <<run, lnc, mem, rcv, inb, q, snd, hp, info>> /\ NoEnv

NewCli ==
  /\ acc[1] = "new"
  /\ LET c == acc[2] IN rcv' = [rcv EXCEPT ![c] = "recv"] /\ cst' = [cst EXCEPT ![c].run = TRUE] /\ acc' = <<"add", c>>
  /\ Silent /\ UNCHANGED <<run, lnc, lq, load, mem, inb, q, snd, hp, info>> /\ NoEnv

AddCli ==
  /\ acc[1] = "add"
  /\ LET c == acc[2] IN mem' = (IF cst[c].run THEN mem \cup {c} ELSE mem) /\ acc' = <<"on", c>> /\ Emit(<<EvC("OnConn", c)>>)
  /\ UNCHANGED <<run, lnc, lq, load, cst, rcv, inb, q, snd, hp, info>> /\ NoEnv

Announced ==
  /\ acc[1] = "on" /\ ~cgate /\ acc' = <<"idle">> /\ Emit(<<EvC("OnConnRet", acc[2])>>)
  /\ UNCHANGED <<run, lnc, lq, load, mem, cst, rcv, inb, q, snd, hp, info>> /\ NoEnv

LoopEnd ==
  /\ acc = <<"idle">> /\ lnc /\ acc' = <<"exit">>
  /\ cst' = [c \in Conns |-> IF c \in mem THEN [cst[c] EXCEPT !.closed = TRUE, !.run = FALSE] ELSE cst[c]]
  /\ mem' = {}
  /\ Emit(SeqMap(LAMBDA c : EvC("CliClose", c), SetSeq({c \in mem : ~cst[c].closed}))
          \o <<Ev1("ServeRet"), [e |-> "SrvStopRet", res |-> "ok", t |-> t]>>)
  /\ UNCHANGED <<run, lnc, lq, load, rcv, inb, q, snd, hp, info>> /\ NoEnv

-----------------------------------------------------------------------------
(* Receive loop and handlers *)
ElE(o, n) == [e |-> "El", o |-> o, n |-> n, vis |-> <<>>, ok |-> TRUE, cok |-> TRUE, t |-> t]
EndE(o, n) == [e |-> "ElEnd", o |-> o, n |-> n, t |-> t]
GateE(o, on) == [e |-> "Gate", o |-> o, on |-> on, t |-> t]
Hn(o) == IF info[o].sync THEN "S" ELSE "A"
BeginEv(o) == <<ElE(o, "a"), EndE(o, "a"), ElE(o, Hn(o))>> \o (IF info[o].gate THEN <<GateE(o, TRUE)>> ELSE <<>>)

Recv(c) ==
  /\ rcv[c] = "recv" /\ inb[c] # <<>> /\ ~cst[c].closed
  /\ inb' = [inb EXCEPT ![c] = Tail(@)]
  /\ LET o == Head(inb[c]) IN
     IF o = 0 THEN /\ cst' = [cst EXCEPT ![c].closed = TRUE, ![c].run = FALSE] /\ Emit(<<EvC("CliClose", c)>>) /\ UNCHANGED <<hp, rcv>>
     ELSE IF info[o].sync
     THEN /\ hp' = [hp EXCEPT ![o] = IF info[o].gate THEN "gate" ELSE "w"] /\ rcv' = [rcv EXCEPT ![c] = "run"]
          /\ Emit(BeginEv(o)) /\ UNCHANGED cst
     ELSE /\ hp' = [hp EXCEPT ![o] = "spawn"] /\ Silent /\ UNCHANGED <<rcv, cst>>
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, q, snd, info>> /\ NoEnv

Run(o) ==
  /\ hp[o] = "spawn" /\ hp' = [hp EXCEPT ![o] = IF info[o].gate THEN "gate" ELSE "w"]
  /\ Emit(BeginEv(o))
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, cst, rcv, inb, q, snd, info>> /\ NoEnv

Finish(o, ev) == /\ hp' = [hp EXCEPT ![o] = "end"]
                 /\ rcv' = IF info[o].sync THEN [rcv EXCEPT ![info[o].c] = "recv"] ELSE rcv
                 /\ Emit(ev \o <<EndE(o, Hn(o))>>)

WE(o) == [e |-> "W", o |-> o, n |-> 1, err |-> FALSE, tmo |-> -1, t |-> t]
WR(o, r) == [e |-> "WRet", o |-> o, n |-> 1, res |-> r, t |-> t]
Write(o) ==
  /\ hp[o] = "w"
  /\ LET c == info[o].c IN
     IF ~info[o].w THEN Finish(o, <<>>) /\ UNCHANGED q
     ELSE IF info[o].k = "ntf" THEN Finish(o, <<WE(o), WR(o, "notify")>>) /\ UNCHANGED q
     ELSE IF ~cst[c].run THEN Finish(o, <<WE(o), WR(o, "stopped")>>) /\ UNCHANGED q
     ELSE IF Len(q[c]) < QSize THEN Finish(o, <<WE(o), WR(o, "ok")>>) /\ q' = [q EXCEPT ![c] = Append(@, <<"rsp", o, 1>>)]
     ELSE hp' = [hp EXCEPT ![o] = "wb"] /\ Emit(<<WE(o)>>) /\ UNCHANGED <<q, rcv>>
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, cst, inb, snd, info>> /\ NoEnv

WriteB(o) ==
  /\ hp[o] = "wb"
  /\ LET c == info[o].c IN
     \/ Len(q[c]) < QSize /\ Finish(o, <<WR(o, "ok")>>) /\ q' = [q EXCEPT ![c] = Append(@, <<"rsp", o, 1>>)]
     \/ cst[c].chc /\ Finish(o, <<WR(o, "stopped")>>) /\ UNCHANGED q
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, cst, inb, snd, info>> /\ NoEnv

Lost(c) ==
  /\ rcv[c] = "recv" /\ (cst[c].closed \/ (inb[c] = <<>> /\ cst[c].drop))
  /\ rcv' = [rcv EXCEPT ![c] = "clean1"]
  /\ cst' = [cst EXCEPT ![c].closed = TRUE, ![c].run = FALSE, ![c].chc = TRUE]
  /\ Emit(IF cst[c].closed THEN <<>> ELSE <<EvC("EofSeen", c), EvC("CliClose", c)>>)
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, inb, q, snd, hp, info>> /\ NoEnv

Clean1(c) ==
  /\ rcv[c] = "clean1" /\ rcv' = [rcv EXCEPT ![c] = "clean2"] /\ mem' = mem \ {c} /\ load' = load - 1
  /\ Silent /\ UNCHANGED <<run, lnc, lq, acc, cst, inb, q, snd, hp, info>> /\ NoEnv
Clean2(c) ==
  /\ rcv[c] = "clean2" /\ rcv' = [rcv EXCEPT ![c] = "done"] /\ Emit(<<EvC("OnDisc", c)>>)
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, cst, inb, q, snd, hp, info>> /\ NoEnv

-----------------------------------------------------------------------------
(* Send loop *)
OutE(c, m) == [e |-> "Out", c |-> c, k |-> m[1], o |-> IF m[1] = "rsp" THEN m[2] ELSE 0, n |-> IF m[1] = "rsp" THEN m[3] ELSE m[2], ok |-> TRUE, t |-> t]
Send(c) ==
  /\ snd[c] = "idle" /\ rcv[c] \notin {"none"} /\ q[c] # <<>>
  /\ q' = [q EXCEPT ![c] = Tail(@)]
  /\ IF cst[c].closed THEN Silent /\ UNCHANGED <<snd, cst>>
     ELSE IF cst[c].drop THEN /\ Emit(<<EvC("WErr", c), EvC("CliClose", c)>>) /\ cst' = [cst EXCEPT ![c].closed = TRUE] /\ UNCHANGED snd
     ELSE Emit(<<OutE(c, Head(q[c]))>>) /\ snd' = [snd EXCEPT ![c] = "wr"] /\ UNCHANGED cst
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, rcv, inb, hp, info>> /\ NoEnv
Sent(c) ==
  /\ snd[c] = "wr" /\ (~cst[c].blk \/ cst[c].closed \/ cst[c].drop)
  /\ snd' = [snd EXCEPT ![c] = "idle"]
  /\ IF cst[c].drop /\ ~cst[c].closed THEN Emit(<<EvC("WErr", c), EvC("CliClose", c)>>) /\ cst' = [cst EXCEPT ![c].closed = TRUE]
     ELSE Silent /\ UNCHANGED cst
  /\ UNCHANGED <<run, lnc, lq, acc, load, mem, rcv, inb, q, hp, info>> /\ NoEnv

SysNext == Accept \/ NewCli \/ AddCli \/ Announced \/ LoopEnd
           \/ \E c \in Conns : Recv(c) \/ Lost(c) \/ Clean1(c) \/ Clean2(c) \/ Send(c) \/ Sent(c)
           \/ \E o \in Ops : Run(o) \/ Write(o) \/ WriteB(o)

-----------------------------------------------------------------------------
EnvStep(h) == /\ nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
SysU == UNCHANGED <<load, mem, rcv, q, snd, acc>>
Alive(c) == cst[c].used /\ ~cst[c].drop /\ ~cst[c].closed
\* messages are sent on connections the server has taken
Taken(c) == Alive(c) /\ mon.cs[c].acc

Connect(c) ==
  /\ ~cst[c].used /\ ~lnc /\ (IF c = 1 THEN TRUE ELSE cst[c-1].used)
  /\ cst' = [cst EXCEPT ![c].used = TRUE] /\ lq' = Append(lq, c) /\ Emit(<<EvC("Conn", c)>>)
  /\ EnvStep([a |-> "conn", c |-> c])
  /\ SysU /\ UNCHANGED <<t, run, lnc, inb, hp, info, cgate, nb>>

In(c, o) ==
  /\ Taken(c) /\ hp[o] = "none" /\ (IF o = 1 THEN TRUE ELSE hp[o-1] # "none") /\ Len(inb[c]) < 3
  /\ \E sy \in BOOLEAN, g \in BOOLEAN, kw \in {<<"req", TRUE>>, <<"req", FALSE>>, <<"ntf", TRUE>>} :
     /\ info' = [info EXCEPT ![o] = [c |-> c, sync |-> sy, gate |-> g, k |-> kw[1], w |-> kw[2]]]
     /\ Emit(<<[e |-> "In", c |-> c, o |-> o, k |-> kw[1], m |-> IF sy THEN "/s" ELSE "/a", t |-> t]>>)
     /\ EnvStep([a |-> "in", c |-> c, o |-> o, k |-> kw[1], w |-> kw[2], sync |-> sy, gate |-> g])
  /\ inb' = [inb EXCEPT ![c] = Append(@, o)] /\ hp' = [hp EXCEPT ![o] = "in"]
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, cst, cgate, nb>>

Open(o) ==
  /\ hp[o] = "gate" /\ hp' = [hp EXCEPT ![o] = "w"]
  /\ Emit(<<GateE(o, FALSE)>>) /\ EnvStep([a |-> "open", o |-> o])
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, cst, inb, info, cgate, nb>>

Fatal(c) ==
  /\ "bad" \in Acts /\ Taken(c) /\ inb' = [inb EXCEPT ![c] = Append(@, 0)]
  /\ Emit(<<[e |-> "Bad", c |-> c, why |-> "badcmd", fatal |-> TRUE, t |-> t]>>) /\ EnvStep([a |-> "bad", c |-> c])
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, cst, hp, info, cgate, nb>>

Drop(c) ==
  /\ Taken(c) /\ cst' = [cst EXCEPT ![c].drop = TRUE]
  /\ Emit(<<EvC("Drop", c)>>) /\ EnvStep([a |-> "drop", c |-> c])
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, inb, hp, info, cgate, nb>>

Block(c) ==
  /\ "blk" \in Acts /\ Taken(c) /\ cst' = [cst EXCEPT ![c].blk = ~@]
  /\ Emit(<<[e |-> "BlockW", c |-> c, on |-> ~cst[c].blk, t |-> t]>>) /\ EnvStep([a |-> "blockw", c |-> c, on |-> ~cst[c].blk])
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, inb, hp, info, cgate, nb>>

StopCli(c) ==
  /\ "stopcli" \in Acts /\ c \in DOMAIN mon.cs /\ mon.cs[c].on > 0 /\ cst[c].run
  /\ cst' = [cst EXCEPT ![c].run = FALSE, ![c].closed = TRUE]
  /\ Emit(<<EvC("StopCli", c)>> \o CloseEv(c)) /\ EnvStep([a |-> "stopcli", c |-> c])
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, inb, hp, info, cgate, nb>>

Bcast ==
  /\ nb < MaxB /\ nb' = nb + 1
  /\ \E f \in (SUBSET Conns \ {{}}) :
     /\ LET M == {c \in mem \cap f : cst[c].run /\ Len(q[c]) < QSize} IN
        q' = [c \in Conns |-> IF c \in M THEN Append(q[c], <<"bc", nb + 1, 0>>) ELSE q[c]]
     /\ Emit(<<[e |-> "Bcast", b |-> nb + 1, f |-> SetSeq(f), all |-> f = Conns, t |-> t], [e |-> "BRet", b |-> nb + 1, t |-> t]>>)
     /\ EnvStep([a |-> "bcast", b |-> nb + 1, f |-> SetSeq(f), all |-> f = Conns])
  /\ UNCHANGED <<load, mem, rcv, snd, acc, t, run, lnc, lq, cst, inb, hp, info, cgate>>

GateConn ==
  /\ "cgate" \in Acts /\ cgate' = ~cgate /\ Silent /\ EnvStep([a |-> "gateconn", on |-> ~cgate])
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, cst, inb, hp, info, nb>>

SrvStop ==
  /\ WithStop /\ run /\ run' = FALSE /\ lnc' = TRUE
  /\ Emit(<<[e |-> "SrvStop", k |-> "shut", tmo |-> 1000, t |-> t]>>) /\ EnvStep([a |-> "srvstop", k |-> "shut", tmo |-> 1000])
  /\ SysU /\ UNCHANGED <<t, lq, cst, inb, hp, info, cgate, nb>>

Quiet ==
  /\ ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE
  /\ Emit(<<[e |-> "Quiet", mem |-> SetSeq(mem), load |-> load, un |-> SetSeq({c \in Conns : inb[c] # <<>> /\ ~cst[c].closed /\ rcv[c] # "none"}),
             par |-> <<>>, lnclosed |-> lnc, t |-> t]>>)
  /\ SysU /\ UNCHANGED <<t, run, lnc, lq, cst, inb, hp, info, cgate, nb, nenv, hist>>

EnvNext == \/ \E c \in Conns : Connect(c) \/ Fatal(c) \/ Drop(c) \/ Block(c) \/ StopCli(c)
           \/ \E c \in Conns, o \in Ops : In(c, o)
           \/ \E o \in Ops : Open(o)
           \/ Bcast \/ GateConn \/ SrvStop \/ Quiet
Next == SysNext \/ EnvNext
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
TypeOK == load >= 0 /\ \A c \in Conns : Len(q[c]) <= QSize
View == <<t, run, lnc, lq, acc, load, mem, cst, rcv, inb, q, snd, hp, info, cgate, nb, nenv, justQ, mon, viol>>
GenDone == (nenv = MaxEnv /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
