------------------------------- MODULE PoolSys -------------------------------
(* Model of a client pool with concurrent choosers: a shared round counter advanced once
   per choice, and a scan over the members from there.  Judged by PoolMon. *)
EXTENDS PoolMon, TLC, Json
CONSTANTS NM, NCh, MaxEnv, Acts
VARIABLES m, acc, round, pc, nenv, nk, justQ, mon, viol, hist
vars == <<m, acc, round, pc, nenv, nk, justQ, mon, viol, hist>>
\* m[i]: "up", "down" (reconnecting), "lost" (not noticed yet), "stop"; acc[i]: its peer accepts connections
Mem == 1..NM
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>
RECURSIVE Links(_, _)
Links(x, i) == IF i > NM THEN Apply(x, [e |-> "New", ok |-> TRUE, size |-> NM]) ELSE Links(Apply(x, [e |-> "Link", i |-> i, c |-> i]), i + 1)
Idle == [s |-> "idle"]
Init == /\ m = [i \in Mem |-> "up"] /\ acc = [i \in Mem |-> TRUE] /\ round = 0 /\ pc = [k \in 1..NCh |-> Idle] /\ nenv = 0 /\ nk = 0 /\ justQ = TRUE /\ hist = <<>>
        /\ mon = Apply(Links(Init0([n |-> NM, fails |-> FALSE]), 1), [e |-> "Quiet"]) /\ viol = {}
NoEnv == UNCHANGED <<nenv, nk, hist>> /\ justQ' = FALSE

TakeRound(k) == /\ pc[k].s = "start" /\ round' = (round + 1) % NM /\ pc' = [pc EXCEPT ![k] = [s |-> "scan", at |-> round + 1, left |-> NM, id |-> pc[k].id]]
                /\ Silent /\ UNCHANGED <<m, acc>> /\ NoEnv
Scan(k) == /\ pc[k].s = "scan"
           /\ LET i == (pc[k].at % NM) + 1 IN
              IF m[i] \in {"up", "lost"} \/ pc[k].left = 1
              THEN /\ Emit(<<[e |-> "NextE", k |-> pc[k].id, i |-> i]>>) /\ pc' = [pc EXCEPT ![k] = Idle]
              ELSE /\ Silent /\ pc' = [pc EXCEPT ![k].at = @ + 1, ![k].left = @ - 1]
           /\ UNCHANGED <<m, acc, round>> /\ NoEnv
Notice(i) == /\ m[i] = "lost" /\ m' = [m EXCEPT ![i] = "down"] /\ Emit(<<[e |-> "Shut", c |-> i]>>) /\ UNCHANGED <<acc, round, pc>> /\ NoEnv
Redial(i) == /\ m[i] = "down" /\ acc[i] /\ m' = [m EXCEPT ![i] = "up"] /\ Emit(<<[e |-> "Link", i |-> i, c |-> i]>>) /\ UNCHANGED <<acc, round, pc>> /\ NoEnv
SysNext == \/ \E k \in 1..NCh : TakeRound(k) \/ Scan(k)
           \/ \E i \in Mem : Notice(i) \/ Redial(i)

EnvStep(h) == nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
DoNext(k) == /\ pc[k].s = "idle" /\ pc' = [pc EXCEPT ![k] = [s |-> "start", id |-> nk + 1]] /\ nk' = nk + 1 /\ Emit(<<[e |-> "NextB", k |-> nk + 1]>>)
             /\ EnvStep([a |-> "next", k |-> k]) /\ UNCHANGED <<m, acc, round>>
DoDown(i) == /\ "down" \in Acts /\ m[i] = "up" /\ m' = [m EXCEPT ![i] = "lost"] /\ acc' = [acc EXCEPT ![i] = FALSE] /\ Emit(<<[e |-> "Down", i |-> i]>>)
             /\ EnvStep([a |-> "down", i |-> i]) /\ UNCHANGED <<round, pc, nk>>
DoUp(i) == /\ "down" \in Acts /\ ~acc[i] /\ acc' = [acc EXCEPT ![i] = TRUE] /\ Silent
           /\ EnvStep([a |-> "up", i |-> i]) /\ UNCHANGED <<m, round, pc, nk>>
DoStop(i) == /\ "stop" \in Acts /\ m[i] # "stop" /\ m' = [m EXCEPT ![i] = "stop"] /\ Emit(<<[e |-> "StopB", i |-> i], [e |-> "Shut", c |-> i], [e |-> "StopM", i |-> i]>>)
             /\ EnvStep([a |-> "stopm", i |-> i]) /\ UNCHANGED <<acc, round, pc, nk>>
Quiet == /\ ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE /\ Emit(<<[e |-> "Quiet"]>>) /\ UNCHANGED <<m, acc, round, pc, nenv, nk, hist>>
EnvNext == Quiet \/ (\E k \in 1..NCh : DoNext(k)) \/ \E i \in Mem : DoDown(i) \/ DoUp(i) \/ DoStop(i)
Next == SysNext \/ EnvNext
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<m, acc, round, pc, nenv, nk, justQ, mon, viol>>
GenDone == (nenv = MaxEnv /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
