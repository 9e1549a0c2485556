------------------------------ MODULE MicroSys -------------------------------
(* Model of a service manager: registrations, node failures, reconnecting clients and
   concurrent lookups scanning the weighted list.  Judged by MicroMon.  Time is a counter
   which the environment advances; connecting takes no time when the node accepts. *)
EXTENDS MicroMon, TLC, Json
CONSTANTS ND, NS, NCh, MaxW, MaxEnv, Acts
VARIABLES now, list, ls, ep, acc, idx, pc, nenv, nk, justQ, mon, viol, hist
vars == <<now, list, ls, ep, acc, idx, pc, nenv, nk, justQ, mon, viol, hist>>
\* list[v]: the weighted list of nodes of service v; ls[d]: connection of d: "none" (not registered), "down", "up", "lost"
Nodes == 1..ND
Sv(d) == ((d - 1) % NS) + 1
Cfg == [n |-> ND, ns |-> NS, sv |-> [d \in Nodes |-> Sv(d)], settle |-> 1]
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
T(es) == [i \in 1..Len(es) |-> [t |-> now] @@ es[i]]
Emit(es) == LET r == Fold(mon, viol, T(es)) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>
Idle == [s |-> "idle"]
Init == /\ now = 0 /\ list = [v \in 1..NS |-> <<>>] /\ ls = [d \in Nodes |-> "none"] /\ ep = [d \in Nodes |-> 0] /\ acc = [d \in Nodes |-> TRUE] /\ idx = [v \in 1..NS |-> 0]
        /\ pc = [k \in 1..NCh |-> Idle] /\ nenv = 0 /\ nk = 0 /\ justQ = TRUE /\ hist = <<>> /\ mon = Init0(Cfg) /\ viol = {}
NoEnv == UNCHANGED <<now, nenv, nk, hist>> /\ justQ' = FALSE
Cid(d) == d + 10 * ep[d]

Start(k) == /\ pc[k].s = "start"
            /\ LET v == pc[k].v
                   l == Len(list[v])
               IN IF l = 0 THEN /\ Emit(<<[e |-> "NextE", k |-> pc[k].id, res |-> "notfound", d |-> 0]>>) /\ pc' = [pc EXCEPT ![k] = Idle] /\ UNCHANGED idx
                  ELSE /\ idx' = [idx EXCEPT ![v] = @ + 1] /\ pc' = [pc EXCEPT ![k] = [s |-> "scan", v |-> v, id |-> pc[k].id, at |-> idx[v] + 1, left |-> l, lst |-> list[v]]] /\ Silent
            /\ UNCHANGED <<list, ls, ep, acc>> /\ NoEnv
\* the list is locked while it is scanned: lists do not change under a scan
Scan(k) == /\ pc[k].s = "scan"
           /\ LET d == pc[k].lst[(pc[k].at % Len(pc[k].lst)) + 1] IN
              IF ls[d] \in {"up", "lost"} THEN /\ Emit(<<[e |-> "NextE", k |-> pc[k].id, res |-> "ok", d |-> d]>>) /\ pc' = [pc EXCEPT ![k] = Idle]
              ELSE IF pc[k].left = 1 THEN /\ Emit(<<[e |-> "NextE", k |-> pc[k].id, res |-> "unreach", d |-> 0]>>) /\ pc' = [pc EXCEPT ![k] = Idle]
              ELSE /\ Silent /\ pc' = [pc EXCEPT ![k].at = @ + 1, ![k].left = @ - 1]
           /\ UNCHANGED <<list, ls, ep, acc, idx>> /\ NoEnv
Notice(d) == /\ ls[d] = "lost" /\ ls' = [ls EXCEPT ![d] = "down"] /\ Emit(<<[e |-> "Shut", d |-> d, c |-> Cid(d)]>>) /\ UNCHANGED <<list, ep, acc, idx, pc>> /\ NoEnv
Connect(d) == /\ ls[d] = "down" /\ acc[d] /\ ls' = [ls EXCEPT ![d] = "up"] /\ ep' = [ep EXCEPT ![d] = @ + 1]
              /\ Emit(<<[e |-> "Link", d |-> d, c |-> d + 10 * (ep[d] + 1)]>>) /\ UNCHANGED <<list, acc, idx, pc>> /\ NoEnv
SysNext == \/ \E k \in 1..NCh : Start(k) \/ Scan(k)
           \/ \E d \in Nodes : Notice(d) \/ Connect(d)
EnvStep(h) == nenv < MaxEnv /\ nenv' = nenv + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
Busy(v) == \E k \in 1..NCh : pc[k].s = "scan" /\ pc[k].v = v
Add(d, w) == /\ ~Busy(Sv(d)) /\ Emit(<<[e |-> "AddB", d |-> d, w |-> w], [e |-> "AddE", d |-> d]>>)
             /\ IF ls[d] # "none" THEN UNCHANGED <<list, ls>>
                ELSE list' = [list EXCEPT ![Sv(d)] = @ \o [i \in 1..w |-> d]] /\ ls' = [ls EXCEPT ![d] = "down"]
             /\ EnvStep([a |-> "add", d |-> d, w |-> w]) /\ UNCHANGED <<now, ep, acc, idx, pc, nk>>
Del(d) == /\ ls[d] # "none" /\ ~Busy(Sv(d))
          /\ Emit(IF ls[d] \in {"up", "lost"} THEN <<[e |-> "DelB", d |-> d], [e |-> "Shut", d |-> d, c |-> Cid(d)], [e |-> "DelE", d |-> d]>> ELSE <<[e |-> "DelB", d |-> d], [e |-> "DelE", d |-> d]>>)
          /\ list' = [list EXCEPT ![Sv(d)] = SelectSeq(@, LAMBDA x : x # d)] /\ ls' = [ls EXCEPT ![d] = "none"]
          /\ EnvStep([a |-> "del", d |-> d]) /\ UNCHANGED <<now, ep, acc, idx, pc, nk>>
Down(d) == /\ "down" \in Acts /\ acc[d] /\ acc' = [acc EXCEPT ![d] = FALSE] /\ ls' = [ls EXCEPT ![d] = IF @ = "up" THEN "lost" ELSE @] /\ Emit(<<[e |-> "Down", d |-> d]>>)
           /\ EnvStep([a |-> "down", d |-> d]) /\ UNCHANGED <<now, list, ep, idx, pc, nk>>
Up(d) == /\ ~acc[d] /\ acc' = [acc EXCEPT ![d] = TRUE] /\ Emit(<<[e |-> "Up", d |-> d]>>)
         /\ EnvStep([a |-> "up", d |-> d]) /\ UNCHANGED <<now, list, ls, ep, idx, pc, nk>>
DoNext(k, v) == /\ pc[k].s = "idle" /\ pc' = [pc EXCEPT ![k] = [s |-> "start", id |-> nk + 1, v |-> v]] /\ nk' = nk + 1 /\ Emit(<<[e |-> "NextB", k |-> nk + 1, s |-> v]>>)
                /\ EnvStep([a |-> "next", k |-> k, s |-> v]) /\ UNCHANGED <<now, list, ls, ep, acc, idx>>
Quiet == /\ ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE /\ now' = now + 1 /\ Emit(<<[e |-> "Quiet"]>>) /\ UNCHANGED <<list, ls, ep, acc, idx, pc, nenv, nk, hist>>
EnvNext == Quiet \/ (\E k \in 1..NCh, v \in 1..NS : DoNext(k, v)) \/ \E d \in Nodes : Del(d) \/ Down(d) \/ Up(d) \/ \E w \in 1..MaxW : Add(d, w)
Next == SysNext \/ EnvNext
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<now, list, ls, ep, acc, idx, pc, nenv, nk, justQ, mon, viol>>
GenDone == (nenv = MaxEnv /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
