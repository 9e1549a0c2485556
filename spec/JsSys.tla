-------------------------------- MODULE JsSys --------------------------------
(* Model of the JavaScript client: a session table keyed by sequence number, one
   WebSocket, timers, packets of several frames.  Mistakes which can be built in:
   Keep (a disconnect answers the sessions but keeps them), Late (a timeout leaves its
   session), Rest (a frame without receiver ends the packet).  Judged by JsMon.        *)
EXTENDS JsMon, TLC, Json
CONSTANTS MaxEnv, MaxCall, Keep, Late, Rest
VARIABLES st, shut, sess, seqn, nn, k, now, nenv, justQ, mon, viol, hist
vars == <<st, shut, sess, seqn, nn, k, now, nenv, justQ, mon, viol, hist>>
\* sess: seq -> [n, to]
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Ev(h) == h @@ [t |-> now]
Init == /\ st = "dial" /\ shut = FALSE /\ sess = Empty /\ seqn = 0 /\ nn = 0 /\ k = 1 /\ now = 0 /\ nenv = 0 /\ justQ = TRUE /\ hist = <<>>
        /\ LET r == Fold(Init0([handlers |-> <<"a">>, keep |-> FALSE]), {}, <<[e |-> "Dial", k |-> 1, t |-> 0], [e |-> "Quiet", t |-> 0]>>) IN mon = r.m /\ viol = r.v
EnvStep(h) == nenv < MaxEnv /\ nenv' = nenv + 1 /\ hist' = Append(hist, h) /\ justQ' = TRUE
Set(n, d, er) == <<Ev([e |-> "Settle", n |-> n, via |-> "p", d |-> d, err |-> er])>>
Q == <<Ev([e |-> "Quiet"])>>
RECURSIVE Many(_, _, _)
Many(S, d, er) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Set(sess[x].n, d, er) \o Many(S \ {x}, d, er)
Call(to) == /\ nn < MaxCall /\ nn' = nn + 1 /\ EnvStep([a |-> "call", n |-> nn + 1, to |-> to])
            /\ LET b == <<Ev([e |-> "CallB", n |-> nn + 1, m |-> "m", d |-> "d", to |-> to, cb |-> FALSE, http |-> FALSE])>>
               IN IF st = "open" /\ ~shut
                  THEN /\ sess' = Upd(sess, seqn, [n |-> nn + 1, due |-> IF to > 0 THEN now + to ELSE 0]) /\ seqn' = seqn + 1
                       /\ Emit(b \o <<Ev([e |-> "Frame", k |-> k, cmd |-> 1, m |-> "m", seq |-> seqn, d |-> "d", ok |-> TRUE]), Ev([e |-> "CallE", n |-> nn + 1])>> \o Q)
                  ELSE /\ UNCHANGED <<sess, seqn>> /\ Emit(b \o <<Ev([e |-> "CallE", n |-> nn + 1])>> \o Set(nn + 1, "", "x") \o Q)
            /\ UNCHANGED <<st, shut, k, now>>
\* a packet: a notification or ping in front or not, then the answer to q, or an answer nobody waits for
Pkt(q, pre, er) ==
  /\ st = "open" /\ ~shut /\ q \in 0..(seqn - 1) /\ EnvStep([a |-> "pkt", q |-> q, pre |-> pre, er |-> er])
  /\ LET fs == (IF pre = "" THEN <<>> ELSE <<[cmd |-> IF pre = "ping" THEN 4 ELSE 3, err |-> FALSE, m |-> IF pre = "none" THEN "z" ELSE "a", seq |-> 0, d |-> "n"]>>)
                 \o <<[cmd |-> 2, err |-> er, m |-> "m", seq |-> q, d |-> "r"]>>
         stop == Rest /\ pre = "none"
     IN /\ sess' = IF stop \/ q \notin DOMAIN sess THEN sess ELSE [x \in DOMAIN sess \ {q} |-> sess[x]]
        /\ Emit(<<Ev([e |-> "Pkt", fs |-> fs])>>
             \o (IF pre = "ping" THEN <<Ev([e |-> "Frame", k |-> k, cmd |-> 5, m |-> "", seq |-> 0, d |-> "", ok |-> TRUE])>> ELSE IF pre = "note" THEN <<Ev([e |-> "Cb", m |-> "a", d |-> "n"])>> ELSE <<>>)
             \o <<Ev([e |-> "PktE"])>>
             \o (IF ~stop /\ q \in DOMAIN sess THEN Set(sess[q].n, IF er THEN "" ELSE "r", IF er THEN "r" ELSE "") ELSE <<>>) \o Q)
  /\ UNCHANGED <<st, shut, seqn, nn, k, now>>
Adv(dt) == /\ EnvStep([a |-> "adv", dt |-> dt]) /\ now' = now + dt
           /\ LET D == {q \in DOMAIN sess : sess[q].due > 0 /\ sess[q].due <= now + dt}
                  RECURSIVE TO(_)
                  TO(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<[e |-> "Settle", n |-> sess[x].n, via |-> "p", d |-> "", err |-> "timeout", t |-> now + dt]>> \o TO(S \ {x})
              IN /\ sess' = IF Late THEN [q \in DOMAIN sess |-> IF q \in D THEN [sess[q] EXCEPT !.due = 0] ELSE sess[q]] ELSE [q \in DOMAIN sess \ D |-> sess[q]]
                 /\ Emit(TO(D) \o <<[e |-> "Quiet", t |-> now + dt]>>)
           /\ UNCHANGED <<st, shut, seqn, nn, k>>
Open == st = "dial" /\ ~shut /\ st' = "open" /\ EnvStep([a |-> "open"]) /\ Emit(<<Ev([e |-> "Open", k |-> k])>> \o Q) /\ UNCHANGED <<shut, sess, seqn, nn, k, now>>
Down == /\ st \in {"dial", "open"} /\ EnvStep([a |-> "down"])
        /\ sess' = IF Keep THEN sess ELSE Empty
        /\ IF shut THEN st' = "none" /\ UNCHANGED k ELSE st' = "dial" /\ k' = k + 1
        /\ Emit(<<Ev([e |-> "Down", k |-> k])>> \o Many(DOMAIN sess, "", "x") \o (IF shut THEN <<>> ELSE <<Ev([e |-> "Dial", k |-> k + 1])>>) \o Q)
        /\ UNCHANGED <<shut, seqn, nn, now>>
Shut == ~shut /\ shut' = TRUE /\ EnvStep([a |-> "shut"]) /\ Emit(<<Ev([e |-> "Shut"])>> \o Q) /\ UNCHANGED <<st, sess, seqn, nn, k, now>>
Next == \/ \E to \in {0, 5} : Call(to)
        \/ \E q \in 0..(MaxCall - 1), pre \in {"", "note", "none", "ping"}, er \in BOOLEAN : Pkt(q, pre, er)
        \/ \E dt \in {1, 5} : Adv(dt)
        \/ Open \/ Down \/ Shut
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<st, shut, sess, seqn, nn, k, now, nenv, justQ, mon, viol>>
GenDone == (nenv = MaxEnv) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
