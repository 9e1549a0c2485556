------------------------------- MODULE HdMon -------------------------------
(* Observable specification of handlers: what each handler is made of, and that nothing
   done to one shows in another.

   A handler has settings, hooks, middleware, coders, routes, stream routes and a context.
   Events (h, f: handlers; x: the identity of a function, "" for none):
     New(h,set)           a new handler, with these (default) settings
     Clone(h,f)           a copy of f;  Srv(h,tag) / Cli(h): the handler of a server / client made with defaults: a
                          copy of handler 0, the default handler (with its own log tag)
     Set(h,k,v)  Hook(h,k,x)  Use(h,x)  Coder(h,x)  NotFound(h,x)  Cancel(h)  PoolOff(h)
     Handle(h,m,x,as,ok)  Stream(h,m,x,as,ok)   ok: it was not refused; as: "def", "true", "false"
     Obs(h,v)             everything which can be seen of h: v maps each aspect to a sequence
     Crash / Hang / Leak                                                            *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C31"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Plain == {"conn", "disc", "done", "ctxd", "brecv", "bsend", "malloc", "append", "free", "exec"}
Both == {"over", "drop", "miss"}        \* followed by "done"
Hooks == Plain \cup Both \cup {"wrap"}
Methods == {"a", "b", "L", "zz"}        \* "L" has the greatest length; nothing is ever registered for "zz"
SMethods == {"a", "b"}
NewH(set) == [ set |-> set, hooks |-> [k \in Hooks |-> ""], mids |-> <<>>, cod |-> <<>>, routes |-> Empty, nf |-> FALSE, nfc |-> <<>>, streams |-> Empty, canc |-> FALSE ]
CopyH(h) == [h EXCEPT !.canc = FALSE]
AsyncOf(h, as) == IF as = "def" THEN h.set["asyncResponse"] ELSE as
Valid(h, m) == m \in {"a", "b", "L"} /\ m \notin DOMAIN h.routes
SValid(h, m) == m \in {"a", "b", "L"} /\ m \notin DOMAIN h.streams
DoHandle(h, m, x, as) == [h EXCEPT !.routes = Upd(@, m, [ch |-> Append(h.mids, x), as |-> AsyncOf(h, as)]),
                                   !.nf = TRUE, !.nfc = IF h.nf THEN @ ELSE h.mids]
DoUse(h, x) == [h EXCEPT !.mids = Append(@, x), !.nfc = IF h.nf THEN Append(@, x) ELSE @,
                         !.routes = [m \in DOMAIN @ |-> [@[m] EXCEPT !.ch = Append(@, x)]]]
DoHook(h, k, x) == [h EXCEPT !.hooks[k] = IF k \in {"over", "drop"} /\ x = "" THEN "nil" ELSE x]
\* what is seen of a handler
One(x) == IF x = "" THEN <<>> ELSE <<x>>
How(h, as) == IF as # "true" THEN "sync" ELSE IF h.hooks["exec"] = "" THEN "go" ELSE h.hooks["exec"]
Tag(p, S) == {p \o x : x \in S}
RouteOf(h, m) == IF m \in DOMAIN h.routes THEN <<How(h, h.routes[m].as)>> \o h.routes[m].ch
                 ELSE IF h.nf /\ h.nfc # <<>> THEN <<"sync">> \o h.nfc ELSE <<>>
Expect(h) ==
  LET dom == DOMAIN h.set \cup Hooks \cup Tag("r:", Methods) \cup Tag("s:", SMethods) \cup {"coders", "canc"}
      un(p, S, k) == CHOOSE m \in S : p \o m = k
  IN [k \in dom |->
        IF k \in DOMAIN h.set THEN <<h.set[k]>>
        ELSE IF k \in Plain THEN One(h.hooks[k])
        ELSE IF k \in {"over", "drop"} THEN (IF h.hooks[k] = "" THEN <<>> ELSE (IF h.hooks[k] = "nil" THEN <<>> ELSE <<h.hooks[k]>>) \o One(h.hooks["done"]))
        ELSE IF k = "miss" THEN (IF h.hooks[k] = "" THEN <<>> ELSE <<h.hooks[k]>> \o One(h.hooks["done"]))
        ELSE IF k = "wrap" THEN (IF h.hooks[k] = "" THEN <<"buffer", h.set["recvBuf"]>> ELSE <<h.hooks[k]>>)
        ELSE IF k = "coders" THEN h.cod
        ELSE IF k = "canc" THEN <<IF h.canc THEN "true" ELSE "false">>
        ELSE IF k \in Tag("r:", Methods) THEN RouteOf(h, un("r:", Methods, k))
        ELSE LET m == un("s:", SMethods, k) IN IF m \in DOMAIN h.streams THEN <<How(h, h.streams[m].as), h.streams[m].x>> ELSE <<>>]
Init0(cfg) == [ hs |-> Empty ]
Put(s, h, v) == [s EXCEPT !.hs = Upd(@, h, v)]
Apply(s, e) ==
  LET H == s.hs[e.h] IN
  CASE e.e = "New" -> Put(s, e.h, NewH(e.set))
    [] e.e = "Clone" -> Put(s, e.h, CopyH(s.hs[e.f]))
    [] e.e = "Cli" -> Put(s, e.h, CopyH(s.hs[0]))
    [] e.e = "Srv" -> Put(s, e.h, [CopyH(s.hs[0]) EXCEPT !.set["logtag"] = e.tag])
    [] e.e = "Set" -> Put(s, e.h, [H EXCEPT !.set[e.k] = e.v])
    [] e.e = "Hook" -> Put(s, e.h, DoHook(H, e.k, e.x))
    [] e.e = "Use" -> Put(s, e.h, IF e.x = "" THEN H ELSE DoUse(H, e.x))
    [] e.e = "Coder" -> Put(s, e.h, IF e.x = "" THEN H ELSE [H EXCEPT !.cod = Append(@, e.x)])
    [] e.e = "NotFound" -> Put(s, e.h, [H EXCEPT !.nf = TRUE, !.nfc = Append(H.mids, e.x)])
    [] e.e = "Cancel" -> Put(s, e.h, [H EXCEPT !.canc = TRUE])
    [] e.e = "PoolOff" -> Put(s, e.h, [H EXCEPT !.hooks = [k \in Hooks |-> IF k \in {"malloc", "append", "free", "ctxd", "done"} THEN "" ELSE @[k]]])
    [] e.e = "Handle" -> Put(s, e.h, IF Valid(H, e.m) THEN DoHandle(H, e.m, e.x, e.as) ELSE H)
    [] e.e = "Stream" -> Put(s, e.h, IF SValid(H, e.m) THEN [H EXCEPT !.streams = Upd(@, e.m, [x |-> e.x, as |-> AsyncOf(H, e.as)])] ELSE H)
    [] OTHER -> s
Bad(s, e) ==
  CASE e.e = "Handle" -> If(e.ok # Valid(s.hs[e.h], e.m), {"C31"})
    [] e.e = "Stream" -> If(e.ok # SValid(s.hs[e.h], e.m), {"C31"})
    [] e.e = "Obs" -> If(Expect(s.hs[e.h]) # e.v, {"C31"})
    [] e.e \in {"Crash", "Hang", "Leak"} -> AllProps
    [] OTHER -> {}
=============================================================================
