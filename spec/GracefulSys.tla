----------------------------- MODULE GracefulSys -----------------------------
(* Model of the graceful-shutdown middleware: admission (look at the flag and count
   oneself in, one step), the handler, and shutdown (set the flag; wait until nobody is
   counted in).  With Atomic = FALSE admission is two steps and the shutdown can slip in
   between: TLC then reports the violation.  Judged by GracefulMon. *)
EXTENDS GracefulMon, TLC, Json
CONSTANTS NReq, NShut, MaxEnv, Sync, Atomic
VARIABLES flag, cnt, rq, sh, nenv, justQ, mon, viol, hist
vars == <<flag, cnt, rq, sh, nenv, justQ, mon, viol, hist>>
\* rq[k]: "no", "sent", "looked", "in", "run", "done", "end"; sh[j]: "no", "begun", "wait", "end"
R == 1..NReq
S == 1..NShut
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>
Init == /\ flag = FALSE /\ cnt = 0 /\ rq = [k \in R |-> "no"] /\ sh = [j \in S |-> "no"] /\ nenv = 0 /\ justQ = TRUE /\ hist = <<>>
        /\ mon = Init0([sync |-> Sync]) /\ viol = {}
NoEnv == UNCHANGED <<nenv, hist>> /\ justQ' = FALSE
To(k, v) == rq' = [rq EXCEPT ![k] = v]
\* in line, requests are taken one at a time, in order
Turn(k) == ~Sync \/ \A i \in R : i < k => rq[i] \in {"end"}
Refuse(k) == To(k, "end") /\ Emit(<<[e |-> "Rep", k |-> k, r |-> "refused"]>>) /\ UNCHANGED cnt
Admit(k) == /\ rq[k] = "sent" /\ Turn(k)
            /\ IF flag THEN Refuse(k)
               ELSE /\ Silent /\ IF Atomic THEN To(k, "in") /\ cnt' = cnt + 1 ELSE To(k, "looked") /\ UNCHANGED cnt
            /\ UNCHANGED <<flag, sh>> /\ NoEnv
Count(k) == rq[k] = "looked" /\ To(k, "in") /\ cnt' = cnt + 1 /\ Silent /\ UNCHANGED <<flag, sh>> /\ NoEnv
Run(k) == rq[k] = "in" /\ To(k, "run") /\ Emit(<<[e |-> "HB", k |-> k]>>) /\ UNCHANGED <<flag, cnt, sh>> /\ NoEnv
Finish(k) == rq[k] = "done" /\ To(k, "end") /\ cnt' = cnt - 1 /\ Emit(<<[e |-> "Rep", k |-> k, r |-> "ok"]>>) /\ UNCHANGED <<flag, sh>> /\ NoEnv
SetFlag(j) == sh[j] = "begun" /\ sh' = [sh EXCEPT ![j] = "wait"] /\ flag' = TRUE /\ Silent /\ UNCHANGED <<cnt, rq>> /\ NoEnv
Wake(j) == sh[j] = "wait" /\ cnt = 0 /\ sh' = [sh EXCEPT ![j] = "end"] /\ Emit(<<[e |-> "ShutE", j |-> j]>>) /\ UNCHANGED <<flag, cnt, rq>> /\ NoEnv
SysNext == \/ \E k \in R : Admit(k) \/ Count(k) \/ Run(k) \/ Finish(k)
           \/ \E j \in S : SetFlag(j) \/ Wake(j)
EnvStep(h) == nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
Send(k) == /\ rq[k] = "no" /\ (\A i \in R : i < k => rq[i] # "no") /\ To(k, "sent") /\ Emit(<<[e |-> "Req", k |-> k, kind |-> "call"]>>)
           /\ EnvStep([a |-> "req", k |-> k]) /\ UNCHANGED <<flag, cnt, sh>>
Release(k) == /\ rq[k] = "run" /\ To(k, "done") /\ Emit(<<[e |-> "HE", k |-> k]>>) /\ EnvStep([a |-> "rel", k |-> k]) /\ UNCHANGED <<flag, cnt, sh>>
Shut(j) == /\ sh[j] = "no" /\ (\A i \in S : i < j => sh[i] # "no") /\ sh' = [sh EXCEPT ![j] = "begun"] /\ Emit(<<[e |-> "ShutB", j |-> j]>>)
           /\ EnvStep([a |-> "shut", j |-> j]) /\ UNCHANGED <<flag, cnt, rq>>
Quiet == ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE /\ Emit(<<[e |-> "Quiet"]>>) /\ UNCHANGED <<flag, cnt, rq, sh, nenv, hist>>
EnvNext == Quiet \/ (\E k \in R : Send(k) \/ Release(k)) \/ \E j \in S : Shut(j)
Next == SysNext \/ EnvNext
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<flag, cnt, rq, sh, nenv, justQ, mon, viol>>
GenDone == (justQ /\ (nenv = MaxEnv \/ ~ENABLED (EnvNext))) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
