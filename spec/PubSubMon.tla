------------------------------ MODULE PubSubMon ------------------------------
(* Observable specification of publish/subscribe between a pub/sub server and its
   clients, each with one connection at a time.

   Events (t = virtual ms); c is a client (0: the server itself):
     Link(c,ep)  Drop(c)  StopC(c)      the client's connection comes up / is lost / the client is stopped
     Block(c,on)                        what the server writes to c stalls
     AuthB(c,good) AuthE(c,res)         authentication with the right (good) or a wrong password
     SubB(c,tp) SubE(c,tp,res)   UnsubB(c,tp) UnsubE(c,tp,res)
     PubB(p,c,tp,one) PubE(p,res)       publication p
     Got(c,tp,p,ok)                     a handler of c is given publication p on topic tp (p = 0: no such publication)
     Panic(c)                           ... and panics
     Quiet / Leak / Crash / Hang
   cfg.async: handlers are started in goroutines of their own (arpc's default), so that one
   which is under way when Unsubscribe returns still runs, and their order is not fixed. *)
EXTENDS Integers, Sequences, FiniteSets

AllProps == {"C23", "C24", "C12"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}

\* sub[c,t].st: is c subscribed at the server ("y", "n", or "m": cannot be told from outside)
\* sub[c,t].want: does c's session contain the topic
Init0(cfg) == [ cfg |-> cfg, cl |-> Empty, sub |-> Empty, ps |-> Empty, gots |-> <<>>, pans |-> 0,
                stale |-> FALSE ] \* the server may not have noticed yet that a connection is gone

Cl0 == [up |-> FALSE, ep |-> 0, pw |-> FALSE, auth |-> "n", blk |-> FALSE, g |-> 0, ag |-> 0, fresh |-> TRUE, broken |-> FALSE, stop |-> FALSE]
C(s, c) == IF c \in DOMAIN s.cl THEN s.cl[c] ELSE Cl0
Sub(s, c, tp) == IF <<c, tp>> \in DOMAIN s.sub THEN s.sub[<<c, tp>>] ELSE [st |-> "n", want |-> "n", ep |-> 0, was |-> "n", sure |-> FALSE, au |-> FALSE]
Healthy(s, c) == C(s, c).up /\ ~C(s, c).blk /\ ~C(s, c).broken /\ ~C(s, c).stop
\* an operation of a client whose session is in order has to succeed
Sound(s, c) == Healthy(s, c) /\ C(s, c).auth = "y"
Open(s) == {p \in DOMAIN s.ps : s.ps[p].open}
Topics(s, c) == {k[2] : k \in {x \in DOMAIN s.sub : x[1] = c}}

\* changing a subscription's state tells the publications which are under way
SetSub(s, c, tp, r) ==
  LET ps2 == [p \in DOMAIN s.ps |->
                IF ~s.ps[p].open \/ s.ps[p].tp # tp THEN s.ps[p]
                ELSE [s.ps[p] EXCEPT !.elig = IF r.st # "n" THEN @ \cup {c} ELSE @, !.must = IF r.st # "y" THEN @ \ {c} ELSE @]]
  IN [s EXCEPT !.sub = Upd(s.sub, <<c, tp>>, r), !.ps = ps2]
Unsure(s, c) == [s EXCEPT !.ps = [p \in DOMAIN s.ps |-> [s.ps[p] EXCEPT !.must = @ \ {c}]]]
Lost(s, c) == LET s1 == Unsure(s, c)
              IN [s1 EXCEPT !.stale = TRUE, !.sub = [k \in DOMAIN s.sub |-> IF k[1] = c /\ s.sub[k].st = "y" THEN [s.sub[k] EXCEPT !.st = "m"] ELSE s.sub[k]]]

\* once c is (perhaps) authenticated, what it asked for before and has no answer to yet may be served
May(s, c) ==
  [s EXCEPT !.ps = [p \in DOMAIN s.ps |-> LET r == s.ps[p] IN
       IF r.by = c /\ ~r.auth /\ ~r.ret THEN [r EXCEPT !.auth = TRUE, !.open = TRUE, !.elig = {x \in DOMAIN s.cl : Sub(s, x, r.tp).st # "n"}] ELSE r],
            !.sub = [k \in DOMAIN s.sub |-> IF k[1] = c THEN [s.sub[k] EXCEPT !.au = TRUE] ELSE s.sub[k]]]

QuietApply(s) ==
  LET restored(c) == LET x == C(s, c) IN Healthy(s, c) /\ x.pw /\ x.ep > 1
      cl2 == [c \in DOMAIN s.cl |-> [s.cl[c] EXCEPT !.fresh = IF s.cl[c].up /\ ~s.cl[c].blk THEN FALSE ELSE @, !.auth = IF restored(c) THEN "y" ELSE @]]
      sub2 == [k \in DOMAIN s.sub |->
                 IF s.cl[k[1]].stop THEN [s.sub[k] EXCEPT !.st = "n"]
                 ELSE IF s.cl[k[1]].fresh /\ restored(k[1]) /\ s.sub[k].want = "y" THEN [s.sub[k] EXCEPT !.st = "y"] ELSE s.sub[k]]
      ps2 == [p \in DOMAIN s.ps |-> [s.ps[p] EXCEPT !.open = @ /\ ~s.ps[p].ret]]
  IN [s EXCEPT !.cl = cl2, !.sub = sub2, !.ps = ps2, !.stale = FALSE]

Apply(s, e) ==
  CASE e.e = "Link" -> [(IF e.ep > 1 /\ C(s, e.c).pw THEN May(s, e.c) ELSE s) EXCEPT !.cl = Upd(s.cl, e.c, [C(s, e.c) EXCEPT !.up = TRUE, !.ep = e.ep, !.fresh = TRUE, !.broken = FALSE, !.blk = FALSE, !.g = @ + 1,
                                                        !.auth = IF e.ep > 1 /\ C(s, e.c).pw THEN "m" ELSE "n"])]
    [] e.e = "Drop" -> [Lost(s, e.c) EXCEPT !.cl[e.c].up = FALSE, !.cl[e.c].fresh = TRUE, !.cl[e.c].g = @ + 1, !.cl[e.c].auth = "n"]
    [] e.e = "StopC" -> [Lost(s, e.c) EXCEPT !.cl[e.c].up = FALSE, !.cl[e.c].stop = TRUE]
    [] e.e = "Block" -> [Unsure(s, e.c) EXCEPT !.cl[e.c].blk = e.on, !.cl[e.c].g = @ + 1, !.cl[e.c].broken = @ \/ (e.on /\ s.cl[e.c].fresh)]
    [] e.e = "AuthB" -> [(IF e.good THEN May(s, e.c) ELSE s) EXCEPT !.cl[e.c].pw = e.good, !.cl[e.c].ag = s.cl[e.c].g, !.cl[e.c].auth = IF e.good /\ @ = "n" THEN "m" ELSE @]
    [] e.e = "AuthE" -> [s EXCEPT !.cl[e.c].auth = IF e.res = "ok" /\ s.cl[e.c].up THEN "y" ELSE @]
    [] e.e = "SubB" -> LET r == Sub(s, e.c, e.tp) IN
                       SetSub(s, e.c, e.tp, [r EXCEPT !.st = IF (C(s, e.c).pw \/ C(s, e.c).auth # "n") /\ @ = "n" THEN "m" ELSE @, !.was = r.want, !.want = IF @ = "y" THEN "y" ELSE "m", !.ep = C(s, e.c).g, !.sure = Sound(s, e.c), !.au = C(s, e.c).auth # "n"])
    [] e.e = "SubE" -> LET r == Sub(s, e.c, e.tp) IN
                       IF e.res = "ok" THEN SetSub(s, e.c, e.tp, [r EXCEPT !.st = IF Healthy(s, e.c) /\ r.ep = C(s, e.c).g /\ r.st # "n" THEN "y" ELSE @, !.want = "y"])
                       ELSE SetSub(s, e.c, e.tp, [r EXCEPT !.st = IF @ = "n" THEN "n" ELSE "m", !.want = IF C(s, e.c).fresh \/ r.was # "n" THEN "m" ELSE "n"])
    [] e.e = "UnsubB" -> LET r == Sub(s, e.c, e.tp) IN SetSub(s, e.c, e.tp, [r EXCEPT !.st = IF @ = "n" THEN "n" ELSE "m", !.was = r.want, !.want = IF @ = "n" THEN "n" ELSE "m", !.ep = C(s, e.c).g, !.sure = Sound(s, e.c), !.au = C(s, e.c).auth # "n"])
    [] e.e = "UnsubE" -> LET r == Sub(s, e.c, e.tp) IN
                         IF e.res = "ok" THEN SetSub(s, e.c, e.tp, [r EXCEPT !.st = IF C(s, e.c).fresh \/ r.ep # C(s, e.c).g THEN @ ELSE "n", !.want = "n"])
                         ELSE s
    [] e.e = "PubB" -> LET el == {c \in DOMAIN s.cl : Sub(s, c, e.tp).st # "n"}
                           au == e.c = 0 \/ C(s, e.c).auth # "n"
                       IN [s EXCEPT !.ps = Upd(s.ps, e.p, [by |-> e.c, ep |-> IF e.c = 0 THEN 0 ELSE C(s, e.c).ep, g |-> C(s, e.c).g, tp |-> e.tp, one |-> e.one, auth |-> au, sure |-> e.c # 0 /\ Sound(s, e.c),
                                                           ret |-> FALSE, res |-> "", open |-> au, elig |-> If(au, el), got |-> {},
                                                           must |-> If(au /\ ~(e.one /\ s.stale), {c \in el : Sub(s, c, e.tp).st = "y" /\ Healthy(s, c)})])]
    [] e.e = "PubE" -> [s EXCEPT !.ps[e.p].ret = TRUE, !.ps[e.p].res = e.res]
    [] e.e = "Got" /\ e.p \in DOMAIN s.ps -> [s EXCEPT !.ps[e.p].got = @ \cup {e.c}, !.gots = Append(@, <<e.c, e.p>>)]
    [] e.e = "Panic" -> [s EXCEPT !.pans = @ + 1]
    [] e.e = "Quiet" -> QuietApply(s)
    [] OTHER -> s

-----------------------------------------------------------------------------
\* a client which has been reconnected depends on its restored session
Blame(s, c) == IF C(s, c).ep > 1 THEN {"C24"} ELSE {"C23"}

GotBad(s, e) ==
  IF e.p \notin DOMAIN s.ps \/ ~e.ok THEN {"C23"}
  ELSE LET p == s.ps[e.p] IN
       If(~s.cfg.onpub /\ ~s.cfg.async /\ Sub(s, e.c, e.tp).want = "n", Blame(s, e.c)) \cup
       If(p.tp # e.tp \/ ~p.auth, {"C23"})
       \cup If(e.c \notin p.elig \/ (~s.cfg.async /\ Sub(s, e.c, e.tp).st = "n"), Blame(s, e.c))
       \cup If(e.c \in p.got, Blame(s, e.c))
       \cup If(p.one /\ p.got # {}, {"C23"})
       \cup If(~s.cfg.async /\ \E i \in 1..Len(s.gots) : s.gots[i][1] = e.c /\ s.gots[i][2] > e.p
                 /\ s.ps[s.gots[i][2]].by = p.by /\ s.ps[s.gots[i][2]].ep = p.ep, {"C23"})

QuietBad(s) ==
  UNION { LET p == s.ps[x] IN
          If(p.ret /\ p.res = "ok" /\ ~p.one, UNION {Blame(s, c) : c \in p.must \ p.got})
          \cup If(p.ret /\ p.res = "ok" /\ p.one /\ p.elig # {} /\ p.elig \subseteq p.must /\ p.got = {}, {"C23"} \cup UNION {Blame(s, c) : c \in p.elig})
          : x \in Open(s) }

Bad0(s, e) ==
  CASE e.e = "Got" -> GotBad(s, e)
    [] e.e = "AuthE" -> If(e.res = "ok" /\ ~C(s, e.c).pw, {"C23"}) \cup If(e.res # "ok" /\ C(s, e.c).pw /\ Healthy(s, e.c) /\ C(s, e.c).ag = C(s, e.c).g /\ ~C(s, e.c).fresh, {"C23"})
    [] e.e \in {"SubE", "UnsubE"} ->
         If(e.res = "ok" /\ C(s, e.c).auth = "n" /\ ~Sub(s, e.c, e.tp).au, {"C23"})
         \cup If(e.res # "ok" /\ Sound(s, e.c) /\ ~C(s, e.c).fresh /\ Sub(s, e.c, e.tp).sure /\ Sub(s, e.c, e.tp).ep = C(s, e.c).g, Blame(s, e.c))
    [] e.e = "PubE" -> LET p == s.ps[e.p] IN
         If(e.res = "ok" /\ ~p.auth, {"C23"})
         \cup If(e.res # "ok" /\ p.by = 0, {"C23"})
         \cup If(e.res # "ok" /\ p.by # 0 /\ Sound(s, p.by) /\ ~C(s, p.by).fresh /\ p.sure /\ p.g = C(s, p.by).g, Blame(s, p.by))
    [] e.e = "Quiet" -> QuietBad(s)
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
Bad(s, e) == LET b == Bad0(s, e) IN b \cup If(b \cap AllProps # {} /\ s.pans > 0, {"C12"})
=============================================================================
