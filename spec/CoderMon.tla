------------------------------ MODULE CoderMon ------------------------------
(* Observable specification of message coders.  Both ends use the same stack of coders.

   Events; m is a message (an item of content), l a directed link:
     Sub(m,l,vals)     the application submits m on link l, with named values attached
                       (vals: sequence of <<name, content>>; content "bad" cannot be carried)
     Wire(l,m,tags)    a frame goes out on link l: its content and the layers around it, innermost first
                       (observable when the stack consists of coders which each add one layer)
     Mis(i)            coder i was asked to decode a message whose outermost layer is not its own
     Got(m,l,vals,hv)  the application at the other end of l receives content m (hv: with the values it can see)
     Quiet             nothing more can happen: everything submitted has arrived
     Leak / Crash / Hang
   cfg: layers (the layers every frame must have), carry (names carried by appenders), all (every value is carried) *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C21"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Range(f) == {f[x] : x \in DOMAIN f}
Init0(cfg) == [ cfg |-> cfg, sub |-> Empty, got |-> {}, wired |-> {} ]
Key(e) == <<e.m, e.l>>
Apply(s, e) ==
  CASE e.e = "Sub" -> [s EXCEPT !.sub = Upd(@, Key(e), e.vals)]
    [] e.e = "Got" -> [s EXCEPT !.got = @ \cup {Key(e)}]
    [] e.e = "Wire" -> [s EXCEPT !.wired = @ \cup {Key(e)}]
    [] OTHER -> s
Carried(s, p) == p[2] # "bad" /\ (s.cfg.all \/ p[1] \in Range(s.cfg.carry))
ValsBad(s, e) ==
  LET a == Range(s.sub[Key(e)])
      g == Range(e.vals)
  IN \/ \E p \in a : Carried(s, p) /\ p \notin g
     \/ \E p \in g : \E q \in a : p[1] = q[1] /\ p[2] # q[2] /\ q[2] # "bad"
     \/ \E p \in g : p[1] \in Range(s.cfg.carry) /\ ~\E q \in a : p[1] = q[1]
Bad(s, e) ==
  CASE e.e = "Wire" -> If(e.tags # s.cfg.layers, {"C21"}) \cup If(e.m # "" /\ (Key(e) \notin DOMAIN s.sub \/ Key(e) \in s.wired), {"C21"})
    [] e.e = "Mis" -> {"C21"}
    [] e.e = "Got" -> If(Key(e) \notin DOMAIN s.sub, {"C21"})                       \* altered, or never sent there
                      \cup If(Key(e) \in s.got, {"C21"})
                      \cup If(Key(e) \in DOMAIN s.sub /\ e.hv /\ ValsBad(s, e), {"C21"})
    [] e.e = "Quiet" -> If(\E k \in DOMAIN s.sub : k \notin s.got, {"C21"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
