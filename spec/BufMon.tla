------------------------------- MODULE BufMon -------------------------------
(* Observable specification of buffer ownership (pooling enabled, or custom allocation hooks).

   Events; b is a buffer handed out by the allocator (0: none), m an item of content:
     Alloc(b)        the allocator hands out b           Free(b)   the library returns it
     Use(b,w)        b's memory is written to a connection ("write", as the write begins and ends)
                     or shown to user code ("show")
     Done(b)         the library declares that it is done with the message which holds b
     Sub(m,must)     content submitted      Got(m) received by the application      Wire(m) seen on a connection
     Own(o,a) Disown(o) Keep(o,ok)   the built-in allocator: owner o holds array a, gives it up, finds its content intact or not
     Drained (all handlers have had time to end)  Quiet / Leak / Crash / Hang                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C20"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Init0(cfg) == [ cfg |-> cfg, live |-> {}, sub |-> {}, must |-> {}, own |-> Empty ]
Apply(s, e) ==
  CASE e.e = "Alloc" -> [s EXCEPT !.live = @ \cup {e.b}]
    [] e.e = "Free" -> [s EXCEPT !.live = @ \ {e.b}]
    [] e.e = "Sub" -> [s EXCEPT !.sub = @ \cup {e.m}, !.must = IF e.must /\ s.cfg.calm THEN @ \cup {e.m} ELSE @]
    [] e.e = "Got" -> [s EXCEPT !.must = @ \ {e.m}]
    [] e.e = "Own" -> [s EXCEPT !.own = Upd(@, e.o, e.a)]
    [] e.e = "Disown" -> [s EXCEPT !.own = [o \in DOMAIN @ \ {e.o} |-> @[o]]]
    [] OTHER -> s
Bad(s, e) ==
  CASE e.e = "Alloc" -> If(e.b \in s.live, {"C20"})
    [] e.e = "Free" -> If(e.b \notin s.live, {"C20"})
    [] e.e = "Use" -> If(e.b \notin s.live, {"C20"})
    [] e.e = "Done" -> If(e.b \notin s.live, {"C20"})
    [] e.e \in {"Got", "Wire"} -> If(e.m \notin s.sub, {"C20"})
    [] e.e = "Drained" -> If(s.must # {}, {"C20"})     \* nothing disturbs the links: all that was submitted has arrived
    [] e.e = "Own" -> If(\E o \in DOMAIN s.own : o # e.o /\ s.own[o] = e.a, {"C20"})
    [] e.e = "Keep" -> If(~e.ok, {"C20"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
