------------------------------- MODULE BufSys -------------------------------
(* Model of message ownership: reference counted messages which travel through bounded
   send queues, are written (or dropped while the link is down), declared done and
   returned; a broadcast shares one message.  Mistakes which can be built in: NoRetain
   (a broadcast does not count its clients), Early (done before the write ends), Twice (a
   refused submission is declared done by the queue and by the caller).  Judged by BufMon. *)
EXTENDS BufMon, TLC, Json
CONSTANTS NL, QS, MaxEnv, NoRetain, Early, Twice
VARIABLES ref, q, busy, st, nb, nenv, justQ, mon, viol, hist
vars == <<ref, q, busy, st, nb, nenv, justQ, mon, viol, hist>>
L == 1..NL
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>
\* ref[b]: references beyond the first; -1: returned.  st[l]: "up", "stall", "down"
Init == /\ ref = <<>> /\ q = [l \in L |-> <<>>] /\ busy = [l \in L |-> 0] /\ st = [l \in L |-> "up"] /\ nb = 0 /\ nenv = 0 /\ justQ = TRUE /\ hist = <<>>
        /\ mon = Init0([calm |-> FALSE]) /\ viol = {}
\* releasing b n times in state r: the new count and what is seen
Rel(r, b, n) == [r |-> [r EXCEPT ![b] = @ - n],
                 ev |-> [i \in 1..n |-> [e |-> "Done", b |-> b]] \o IF r[b] - n = -1 THEN <<[e |-> "Free", b |-> b]>> ELSE IF r[b] - n < -1 THEN <<[e |-> "Free", b |-> b], [e |-> "Free", b |-> b]>> ELSE <<>>]
Sys == UNCHANGED <<nb, nenv, hist>> /\ justQ' = FALSE
Take(l) == /\ busy[l] = 0 /\ q[l] # <<>> /\ q' = [q EXCEPT ![l] = Tail(@)]
           /\ IF st[l] = "down" THEN LET x == Rel(ref, Head(q[l]), 1) IN ref' = x.r /\ Emit(x.ev) /\ UNCHANGED busy
              ELSE /\ busy' = [busy EXCEPT ![l] = Head(q[l])]
                   /\ IF Early THEN LET x == Rel(ref, Head(q[l]), 1) IN ref' = x.r /\ Emit(<<[e |-> "Use", b |-> Head(q[l]), w |-> "write"]>> \o x.ev)
                      ELSE UNCHANGED ref /\ Emit(<<[e |-> "Use", b |-> Head(q[l]), w |-> "write"]>>)
           /\ UNCHANGED st /\ Sys
Written(l) == /\ busy[l] # 0 /\ st[l] # "stall" /\ busy' = [busy EXCEPT ![l] = 0]
              /\ IF Early THEN UNCHANGED ref /\ Emit(<<[e |-> "Use", b |-> busy[l], w |-> "write"]>>)
                 ELSE LET x == Rel(ref, busy[l], 1) IN ref' = x.r /\ Emit(<<[e |-> "Use", b |-> busy[l], w |-> "write"]>> \o x.ev)
              /\ UNCHANGED <<q, st>> /\ Sys
SysNext == \E l \in L : Take(l) \/ Written(l)
EnvStep(h) == nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
Sub(l) == LET b == nb + 1
              r == Append(ref, 0)
              full == Len(q[l]) >= QS
              x == Rel(r, b, IF Twice THEN 2 ELSE 1)
          IN /\ nb' = b /\ IF full THEN ref' = x.r /\ UNCHANGED q /\ Emit(<<[e |-> "Alloc", b |-> b]>> \o x.ev)
                          ELSE ref' = r /\ q' = [q EXCEPT ![l] = Append(@, b)] /\ Emit(<<[e |-> "Alloc", b |-> b]>>)
             /\ EnvStep([a |-> "sub", l |-> l]) /\ UNCHANGED <<busy, st>>
Bcast == LET b == nb + 1
             ok == {l \in L : Len(q[l]) < QS}
             r == Append(ref, IF NoRetain THEN 0 ELSE NL)
             x == Rel(r, b, 1 + Cardinality(L \ ok))     \* those whose queue is full, and the broadcaster itself
         IN /\ nb' = b /\ ref' = x.r /\ q' = [l \in L |-> IF l \in ok THEN Append(q[l], b) ELSE q[l]]
            /\ Emit(<<[e |-> "Alloc", b |-> b]>> \o x.ev) /\ EnvStep([a |-> "bcast", l |-> 0]) /\ UNCHANGED <<busy, st>>
Chg(l, v, a) == st[l] # v /\ st' = [st EXCEPT ![l] = v] /\ Silent /\ EnvStep([a |-> a, l |-> l]) /\ UNCHANGED <<ref, q, busy, nb>>
Quiet == ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE /\ Emit(<<[e |-> "Quiet"]>>) /\ UNCHANGED <<ref, q, busy, st, nb, nenv, hist>>
Next == SysNext \/ Quiet \/ Bcast \/ \E l \in L : Sub(l) \/ (st[l] = "up" /\ Chg(l, "stall", "stall")) \/ (st[l] = "stall" /\ Chg(l, "up", "resume")) \/ (st[l] # "down" /\ Chg(l, "down", "cut")) \/ (st[l] = "down" /\ Chg(l, "up", "up"))
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
\* nothing is returned before its last holder is done, and nothing with a holder is returned
Counted == \A b \in 1..nb : ~(NoRetain \/ Early \/ Twice) =>
             ref[b] + 1 = Cardinality({<<l, i>> \in L \X (1..(QS + 1)) : i <= Len(q[l]) /\ q[l][i] = b}) + Cardinality({l \in L : busy[l] = b})
View == <<ref, q, busy, st, nb, nenv, justQ, mon, viol>>
GenDone == (nenv = MaxEnv /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
