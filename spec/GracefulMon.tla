----------------------------- MODULE GracefulMon -----------------------------
(* Observable specification of the graceful-shutdown middleware.

   Events; k is a request, j a shutdown call:
     Req(k,kind)        it is submitted ("call" or "notify")
     HB(k) HE(k)        the part of its chain behind the middleware begins / ends
     Rep(k,r)           its call ends: "ok" (the handler's own value), "refused" (the shutdown error) or anything else
     ShutB(j) ShutE(j)  a shutdown call
     Quiet              nothing more can happen without time passing
     End                the scenario is over and enough time has passed for everything
     Leak / Crash / Hang                                                              *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C26"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
\* begun: "no", "maybe" (a shutdown call was made), "sure" (and it had the time to begin)
Init0(cfg) == [ cfg |-> cfg, begun |-> "no", req |-> Empty, run |-> {}, done |-> {}, rep |-> {}, shut |-> {}, ended |-> {} ]
Apply(s, e) ==
  CASE e.e = "Req" -> [s EXCEPT !.req = Upd(@, e.k, [kind |-> e.kind, at |-> s.begun])]
    [] e.e = "HB" -> [s EXCEPT !.run = @ \cup {e.k}]
    [] e.e = "HE" -> [s EXCEPT !.run = @ \ {e.k}, !.done = @ \cup {e.k}]
    [] e.e = "Rep" -> [s EXCEPT !.rep = @ \cup {e.k}]
    [] e.e = "ShutB" -> [s EXCEPT !.begun = IF @ = "no" THEN "maybe" ELSE @, !.shut = @ \cup {e.j}]
    [] e.e = "ShutE" -> [s EXCEPT !.begun = "sure", !.ended = @ \cup {e.j}]
    [] e.e = "Quiet" -> [s EXCEPT !.begun = IF @ = "maybe" THEN "sure" ELSE @]
    [] OTHER -> s
Bad(s, e) ==
  CASE e.e = "HB" -> If(e.k \notin DOMAIN s.req \/ e.k \in s.run \cup s.done \cup s.rep, {"C26"})     \* once, for what was sent
                     \cup If(e.k \in DOMAIN s.req /\ s.req[e.k].at = "sure", {"C26"})                  \* submitted after shutdown began
                     \cup If(s.ended # {}, {"C26"})                                                   \* admitted, but not waited for
    [] e.e = "HE" -> If(e.k \notin s.run, {"C26"})
    [] e.e = "Rep" -> CASE e.r = "ok" -> If(e.k \notin s.run \cup s.done, {"C26"})
                        [] e.r = "refused" -> If(s.begun = "no" \/ e.k \in s.run \cup s.done, {"C26"})
                        [] OTHER -> {"C26"}
    [] e.e = "ShutE" -> If(s.run # {}, {"C26"})
    \* a request submitted after shutdown began is answered at once; a shutdown ends (after its pause) once nothing runs
    [] e.e = "Quiet" -> If(~s.cfg.sync /\ \E k \in DOMAIN s.req : s.req[k].kind = "call" /\ s.req[k].at = "sure" /\ k \notin s.rep, {"C26"})
    [] e.e = "End" -> If(s.run # {} \/ s.shut # s.ended \/ \E k \in DOMAIN s.req : s.req[k].kind = "call" /\ k \notin s.rep, {"C26"})
                      \* a notification sent before any shutdown is handled
                      \cup If(\E k \in DOMAIN s.req : s.req[k].at = "no" /\ s.req[k].kind = "notify" /\ s.begun = "no" /\ k \notin s.done, {"C26"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
