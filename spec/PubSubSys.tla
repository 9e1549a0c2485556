------------------------------ MODULE PubSubSys ------------------------------
(* System model of publish/subscribe: per client a session (topics with handlers), a
   connection over which requests are served in order, a queue of what the server sends
   to it, loss of the connection and restoring of the session.  Judged by PubSubMon. *)
EXTENDS PubSubMon, TLC, Json

CONSTANTS NCli, NTop, NPub, MaxEnv, Acts

VARIABLES link, ep, auth, srv, want, op, pop, out, restore, blk, pw, np, spend, nenv, justQ, mon, viol, hist
vars == <<link, ep, auth, srv, want, op, pop, out, restore, blk, pw, np, spend, nenv, justQ, mon, viol, hist>>
Cli == 1..NCli
Top == 1..NTop

RECURSIVE Fold(_, _, _)
Fold(m, v, es) == IF es = <<>> THEN [m |-> m, v |-> v] ELSE Fold(Apply(m, Head(es)), v \cup Bad(m, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>
RECURSIVE Links(_, _)
Links(m, c) == IF c > NCli THEN m ELSE Links(Apply(m, [e |-> "Link", c |-> c, ep |-> 1]), c + 1)

NoOp == [k |-> "none"]
Init ==
  /\ link = [c \in Cli |-> TRUE] /\ ep = [c \in Cli |-> 1] /\ auth = [c \in Cli |-> FALSE] /\ srv = [c \in Cli |-> {}] /\ want = [c \in Cli |-> {}]
  /\ op = [c \in Cli |-> NoOp] /\ pop = [c \in Cli |-> NoOp] /\ out = [c \in Cli |-> <<>>] /\ restore = [c \in Cli |-> <<>>] /\ pw = [c \in Cli |-> FALSE]
  /\ blk = [c \in Cli |-> FALSE] /\ np = 0 /\ spend = {} /\ nenv = 0 /\ justQ = TRUE /\ hist = <<>> /\ mon = Links(Init0([onpub |-> FALSE, async |-> FALSE]), 1) /\ viol = {}
NoEnv == UNCHANGED <<nenv, hist, np, pw, blk>> /\ justQ' = FALSE

\* copies of publication p for everybody subscribed to t, or for one of them
Fan(o, p, t) == [c \in Cli |-> IF t \in srv[c] /\ link[c] THEN Append(o[c], [k |-> "pub", p |-> p, t |-> t]) ELSE o[c]]
One(o, p, t, d) == [o EXCEPT ![d] = Append(@, [k |-> "pub", p |-> p, t |-> t])]
Subs(t) == {c \in Cli : t \in srv[c] /\ link[c]}

\* the server serves the pending request of c
Serve(c) ==
  /\ link[c] /\ op[c].k \in {"auth", "sub", "unsub"} /\ ~op[c].done
  /\ LET o == op[c] IN
     \/ o.k = "auth" /\ auth' = [auth EXCEPT ![c] = @ \/ o.good] /\ UNCHANGED srv /\ out' = [out EXCEPT ![c] = Append(@, [k |-> "rep", ok |-> o.good])]
     \/ o.k = "sub" /\ auth[c] /\ srv' = [srv EXCEPT ![c] = @ \cup {o.t}] /\ UNCHANGED auth /\ out' = [out EXCEPT ![c] = Append(@, [k |-> "rep", ok |-> TRUE])]
     \/ o.k = "unsub" /\ auth[c] /\ srv' = [srv EXCEPT ![c] = @ \ {o.t}] /\ UNCHANGED auth /\ out' = [out EXCEPT ![c] = Append(@, [k |-> "rep", ok |-> TRUE])]
     \/ o.k # "auth" /\ ~auth[c] /\ UNCHANGED <<auth, srv>> /\ out' = [out EXCEPT ![c] = Append(@, [k |-> "rep", ok |-> FALSE])]
  /\ op' = [op EXCEPT ![c].done = TRUE] /\ Silent /\ UNCHANGED <<link, ep, want, pop, restore, spend>> /\ NoEnv
ServePub(c) ==
  /\ link[c] /\ pop[c].k = "pub" /\ ~pop[c].done
  /\ LET o == pop[c]
         o1 == [out EXCEPT ![c] = Append(@, [k |-> "prep", ok |-> auth[c]])]
     IN IF ~auth[c] THEN out' = o1
        ELSE IF ~o.one THEN out' = Fan(o1, o.p, o.t)
        ELSE IF Subs(o.t) = {} THEN out' = o1 ELSE \E d \in Subs(o.t) : out' = One(o1, o.p, o.t, d)
  /\ pop' = [pop EXCEPT ![c].done = TRUE] /\ Silent /\ UNCHANGED <<link, ep, auth, srv, want, op, restore, spend>> /\ NoEnv
SrvPub ==
  /\ spend # {}
  /\ \E o \in spend :
       /\ IF ~o.one THEN out' = Fan(out, o.p, o.t) ELSE IF Subs(o.t) = {} THEN UNCHANGED out ELSE \E d \in Subs(o.t) : out' = One(out, o.p, o.t, d)
       /\ spend' = spend \ {o} /\ Emit(<<[e |-> "PubE", p |-> o.p, res |-> "ok"]>>)
  /\ UNCHANGED <<link, ep, auth, srv, want, op, pop, restore>> /\ NoEnv
\* the client takes the next message
Take(c) ==
  /\ link[c] /\ ~blk[c] /\ out[c] # <<>>
  /\ LET m == Head(out[c])
         o == op[c]
         res == IF m.k # "pub" /\ m.ok THEN "ok" ELSE "err"
     IN \/ m.k = "pub" /\ UNCHANGED <<want, op, pop>>
             /\ IF m.t \in want[c] THEN Emit(<<[e |-> "Got", c |-> c, tp |-> m.t, p |-> m.p, ok |-> TRUE]>>) ELSE Silent
        \/ m.k = "rep" /\ op' = [op EXCEPT ![c] = NoOp] /\ UNCHANGED pop
             /\ \/ o.k = "auth" /\ Emit(<<[e |-> "AuthE", c |-> c, res |-> res]>>) /\ UNCHANGED want
                \/ o.k = "sub" /\ Emit(<<[e |-> "SubE", c |-> c, tp |-> o.t, res |-> res]>>) /\ want' = [want EXCEPT ![c] = IF m.ok THEN @ ELSE @ \ {o.t}]
                \/ o.k = "unsub" /\ Emit(<<[e |-> "UnsubE", c |-> c, tp |-> o.t, res |-> res]>>) /\ want' = [want EXCEPT ![c] = IF m.ok THEN @ \ {o.t} ELSE @]
        \/ m.k = "prep" /\ pop' = [pop EXCEPT ![c] = NoOp] /\ Emit(<<[e |-> "PubE", p |-> pop[c].p, res |-> res]>>) /\ UNCHANGED <<want, op>>
  /\ out' = [out EXCEPT ![c] = Tail(@)] /\ UNCHANGED <<link, ep, auth, srv, restore, spend>> /\ NoEnv
\* the loss of the connection is noticed: pending calls fail, a new connection follows
Relink(c) ==
  /\ ~link[c]
  /\ LET o == op[c]
         e1 == CASE o.k = "auth" -> <<[e |-> "AuthE", c |-> c, res |-> "err"]>> [] o.k = "sub" -> <<[e |-> "SubE", c |-> c, tp |-> o.t, res |-> "err"]>>
                 [] o.k = "unsub" -> <<[e |-> "UnsubE", c |-> c, tp |-> o.t, res |-> "err"]>> [] OTHER -> <<>>
         e2 == IF pop[c].k = "pub" THEN <<[e |-> "PubE", p |-> pop[c].p, res |-> "err"]>> ELSE <<>>
         w2 == IF o.k = "sub" THEN want[c] \ {o.t} ELSE want[c]
     IN /\ Emit(e1 \o e2 \o <<[e |-> "Link", c |-> c, ep |-> ep[c] + 1]>>)
        /\ want' = [want EXCEPT ![c] = w2]
        /\ restore' = [restore EXCEPT ![c] = IF pw[c] THEN <<w2>> ELSE <<>>]
  /\ op' = [op EXCEPT ![c] = NoOp] /\ pop' = [pop EXCEPT ![c] = NoOp] /\ out' = [out EXCEPT ![c] = <<>>]
  /\ srv' = [srv EXCEPT ![c] = {}] /\ auth' = [auth EXCEPT ![c] = FALSE] /\ link' = [link EXCEPT ![c] = TRUE] /\ ep' = [ep EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<spend>> /\ NoEnv
Restore(c) ==
  /\ link[c] /\ ~blk[c] /\ restore[c] # <<>>
  /\ IF ~auth[c] THEN auth' = [auth EXCEPT ![c] = TRUE] /\ UNCHANGED <<srv, restore>>
     ELSE /\ UNCHANGED auth
          /\ IF restore[c][1] = {} THEN restore' = [restore EXCEPT ![c] = <<>>] /\ UNCHANGED srv
             ELSE \E x \in restore[c][1] : restore' = [restore EXCEPT ![c] = <<restore[c][1] \ {x}>>] /\ srv' = [srv EXCEPT ![c] = IF x \in want[c] THEN @ \cup {x} ELSE @]
  /\ Silent /\ UNCHANGED <<link, ep, want, op, pop, out, spend>> /\ NoEnv

SysNext == SrvPub \/ \E c \in Cli : Serve(c) \/ ServePub(c) \/ Take(c) \/ Relink(c) \/ Restore(c)
-----------------------------------------------------------------------------
EnvStep(h) == /\ nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
Core == UNCHANGED <<blk, ep, auth, srv, out, restore>>

Auth(c, good) ==
  /\ op[c].k = "none" /\ link[c] /\ (good \/ "badpw" \in Acts) /\ (good \/ ~pw[c])
  /\ pw' = [pw EXCEPT ![c] = good]
  /\ op' = [op EXCEPT ![c] = [k |-> "auth", good |-> good, done |-> FALSE]] /\ Emit(<<[e |-> "AuthB", c |-> c, good |-> good]>>)
  /\ EnvStep([a |-> "auth", c |-> c, good |-> good]) /\ Core /\ UNCHANGED <<link, want, pop, np, spend>>
DoSub(c, t) ==
  /\ op[c].k = "none" /\ link[c]
  /\ op' = [op EXCEPT ![c] = [k |-> "sub", t |-> t, done |-> FALSE]] /\ want' = [want EXCEPT ![c] = @ \cup {t}] /\ Emit(<<[e |-> "SubB", c |-> c, tp |-> t]>>)
  /\ EnvStep([a |-> "sub", c |-> c, tp |-> t]) /\ Core /\ UNCHANGED <<link, pop, np, pw, spend>>
DoUnsub(c, t) ==
  /\ op[c].k = "none" /\ link[c] /\ t \in want[c]
  /\ op' = [op EXCEPT ![c] = [k |-> "unsub", t |-> t, done |-> FALSE]] /\ Emit(<<[e |-> "UnsubB", c |-> c, tp |-> t]>>)
  /\ EnvStep([a |-> "unsub", c |-> c, tp |-> t]) /\ Core /\ UNCHANGED <<link, want, pop, np, pw, spend>>
DoPub(c, t, one) ==
  /\ np < NPub /\ np' = np + 1 /\ Emit(<<[e |-> "PubB", p |-> np + 1, c |-> c, tp |-> t, one |-> one]>>)
  /\ IF c = 0 THEN spend = {} /\ spend' = {[p |-> np + 1, t |-> t, one |-> one]} /\ UNCHANGED pop
     ELSE pop[c].k = "none" /\ link[c] /\ pop' = [pop EXCEPT ![c] = [k |-> "pub", p |-> np + 1, t |-> t, one |-> one, done |-> FALSE]] /\ UNCHANGED spend
  /\ EnvStep([a |-> "pub", c |-> c, tp |-> t, one |-> one]) /\ Core /\ UNCHANGED <<link, want, op, pw>>
Drop(c) ==
  /\ "drop" \in Acts /\ link[c] /\ link' = [link EXCEPT ![c] = FALSE] /\ blk' = [blk EXCEPT ![c] = FALSE]
  /\ Emit(<<[e |-> "Drop", c |-> c]>>)
  /\ EnvStep([a |-> "drop", c |-> c]) /\ UNCHANGED <<ep, auth, srv, out, restore, want, op, pop, np, pw, spend>>
DoBlock(c) ==
  /\ "blk" \in Acts /\ link[c] /\ blk' = [blk EXCEPT ![c] = ~@] /\ Emit(<<[e |-> "Block", c |-> c, on |-> ~blk[c]]>>)
  /\ EnvStep([a |-> "block", c |-> c, on |-> ~blk[c]]) /\ UNCHANGED <<link, ep, auth, srv, out, restore, want, op, pop, np, pw, spend>>
Quiet ==
  /\ ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE /\ Emit(<<[e |-> "Quiet"]>>)
  /\ Core /\ UNCHANGED <<link, want, op, pop, np, pw, spend, nenv, hist>>
EnvNext == \/ \E c \in Cli : Auth(c, TRUE) \/ Auth(c, FALSE) \/ Drop(c) \/ DoBlock(c) \/ \E x \in Top : DoSub(c, x) \/ DoUnsub(c, x)
           \/ \E c \in 0..NCli, x \in Top, o \in BOOLEAN : DoPub(c, x, o)
           \/ Quiet
Next == SysNext \/ EnvNext
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<link, ep, auth, srv, want, op, pop, out, restore, blk, pw, np, spend, nenv, justQ, mon, viol>>
GenDone == (nenv = MaxEnv /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
