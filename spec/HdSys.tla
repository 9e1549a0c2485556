------------------------------- MODULE HdSys -------------------------------
(* Model of how handlers are kept in memory: a handler refers to a route table, which
   refers to chains, and to slices of middleware and coders (an array, of which a slice
   sees a prefix, and which append writes to in place as long as it has room); hooks which
   end a message find the "done" hook through the handler they were registered on or are
   asked on.  Cloning copies.  Mistakes which can be built in: what is not copied ("routes",
   "chains", "mids", "coders", "streams"), or "late": a hook keeps the handler it was
   registered on.  Judged by HdMon: every handler is looked at after every action. *)
EXTENDS HdMon, TLC, Json
CONSTANTS NH, MaxEnv, Mistake, Acts, Judge     \* Acts: which actions the environment takes; Judge: look at the handlers
VARIABLES hd, tbl, arr, nh, nx, nenv, mon, viol, hist
vars == <<hd, tbl, arr, nh, nx, nenv, mon, viol, hist>>
\* hd[h] = [set, hooks, own (which handler its over hook asks), t (route table), mids, cod (slices [a, n]), st (stream table), canc]
\* tbl[t] = function: method -> [sl, as] or [x, as];  arr[a] = sequence (its length is its capacity)
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Def == [logtag |-> "d", asyncResponse |-> "true", recvBuf |-> "8192"]
Sl0 == [a |-> 0, n |-> 0]
Fresh == [set |-> Def, hooks |-> [k \in Hooks |-> ""], own |-> -1, t |-> -1, mids |-> Sl0, cod |-> Sl0, st |-> -1, nf |-> Sl0, canc |-> FALSE]
\* state of the memory as a record, to be threaded through
Mem == [hd |-> hd, tbl |-> tbl, arr |-> arr]
Elems(M, sl) == IF sl.n = 0 THEN <<>> ELSE SubSeq(M.arr[sl.a], 1, sl.n)
\* append x to a slice in M: <<M', slice'>>
App(M, sl, x) == IF sl.n > 0 /\ sl.n < Len(M.arr[sl.a]) THEN << [M EXCEPT !.arr[sl.a][sl.n + 1] = x], [a |-> sl.a, n |-> sl.n + 1] >>
                 ELSE LET a == Len(M.arr) + 1
                          cap == 2 * (sl.n + 1)
                          c == [i \in 1..cap |-> IF i <= sl.n THEN M.arr[sl.a][i] ELSE IF i = sl.n + 1 THEN x ELSE ""]
                      IN << [M EXCEPT !.arr = Append(@, c)], [a |-> a, n |-> sl.n + 1] >>
\* a copy of a slice, with room for exactly its elements (and one more: x, unless "")
Copy(M, sl, x) == LET c == Elems(M, sl) \o (IF x = "" THEN <<>> ELSE <<x>>) IN
                  IF c = <<>> THEN <<M, Sl0>> ELSE << [M EXCEPT !.arr = Append(@, c)], [a |-> Len(M.arr) + 1, n |-> Len(c)] >>
View1(M, i) ==
  LET h == M.hd[i]
      T == IF h.t = -1 THEN Empty ELSE M.tbl[h.t]
      S == IF h.st = -1 THEN Empty ELSE M.tbl[h.st]
      un(p, U, k) == CHOOSE m \in U : p \o m = k
      ask == IF h.own = -1 THEN h ELSE M.hd[h.own]
      dom == DOMAIN h.set \cup Hooks \cup Tag("r:", Methods) \cup Tag("s:", SMethods) \cup {"coders", "canc"}
      route(m) == IF m \in DOMAIN T THEN <<How(h, T[m].as)>> \o Elems(M, T[m].sl)
                  ELSE IF "" \in DOMAIN T /\ T[""].sl.n > 0 THEN <<"sync">> \o Elems(M, T[""].sl) ELSE <<>>
  IN [k \in dom |->
        IF k \in DOMAIN h.set THEN <<h.set[k]>>
        ELSE IF k \in Plain THEN One(h.hooks[k])
        ELSE IF k = "over" THEN (IF h.hooks[k] = "" THEN <<>> ELSE <<h.hooks[k]>> \o One(ask.hooks["done"]))
        ELSE IF k \in Both THEN <<>>
        ELSE IF k = "wrap" THEN <<"buffer", h.set["recvBuf"]>>
        ELSE IF k = "coders" THEN Elems(M, h.cod)
        ELSE IF k = "canc" THEN <<IF h.canc THEN "true" ELSE "false">>
        ELSE IF k \in Tag("r:", Methods) THEN route(un("r:", Methods, k))
        ELSE LET m == un("s:", SMethods, k) IN IF m \in DOMAIN S THEN <<How(h, S[m].as), S[m].x>> ELSE <<>>]
ObsAll(M) == [i \in 1..Len(M.hd) |-> [e |-> "Obs", h |-> i - 1, v |-> View1(M, i)]]
\* handlers are numbered from 0, the default one
Step(M, ev, h) ==
  /\ nenv < MaxEnv /\ nenv' = nenv + 1 /\ hist' = Append(hist, h)
  /\ hd' = M.hd /\ tbl' = M.tbl /\ arr' = M.arr /\ nh' = Len(M.hd) /\ nx' = nx + 1
  /\ IF Judge THEN LET r == Fold(mon, viol, <<ev>> \o ObsAll(M)) IN mon' = r.m /\ viol' = r.v ELSE UNCHANGED <<mon, viol>>
Init == /\ hd = <<Fresh>> /\ tbl = <<>> /\ arr = <<>> /\ nh = 1 /\ nx = 0 /\ nenv = 0 /\ hist = <<>>
        /\ mon = Apply(Init0([x |-> 0]), [e |-> "New", h |-> 0, set |-> Def]) /\ viol = {}
X == ToString(nx)
New == nh < NH /\ Step([Mem EXCEPT !.hd = Append(@, Fresh)], [e |-> "New", h |-> nh, set |-> Def], [a |-> "new"])
\* copying a table of chains
RECURSIVE CopyChains(_, _, _, _)
CopyChains(M, T, ms, acc) == IF ms = {} THEN <<M, acc>>
  ELSE LET m == CHOOSE x \in ms : TRUE
           c == IF Mistake = "chains" THEN <<M, T[m].sl>> ELSE Copy(M, T[m].sl, "")
       IN CopyChains(c[1], T, ms \ {m}, Upd(acc, m, [sl |-> c[2], as |-> T[m].as]))
CloneOf(M, i) ==
  LET h == M.hd[i]
      r1 == IF h.t = -1 \/ Mistake = "routes" THEN <<M, h.t>>
            ELSE LET c == CopyChains(M, M.tbl[h.t], DOMAIN M.tbl[h.t], Empty) IN << [c[1] EXCEPT !.tbl = Append(@, c[2])], Len(M.tbl) + 1 >>
      M1 == r1[1]
      r2 == IF h.st = -1 \/ Mistake = "streams" THEN <<M1, h.st>> ELSE << [M1 EXCEPT !.tbl = Append(@, M1.tbl[h.st])], Len(M1.tbl) + 1 >>
      M2 == r2[1]
      r3 == IF Mistake = "mids" THEN <<M2, h.mids>> ELSE Copy(M2, h.mids, "")
      r4 == IF Mistake = "coders" THEN <<r3[1], h.cod>> ELSE Copy(r3[1], h.cod, "")
  IN [r4[1] EXCEPT !.hd = Append(@, [h EXCEPT !.t = r1[2], !.st = r2[2], !.mids = r3[2], !.cod = r4[2], !.canc = FALSE])]
Clone(i) == nh < NH /\ Step(CloneOf(Mem, i), [e |-> "Clone", h |-> nh, f |-> i - 1], [a |-> "clone", f |-> i - 1])
Cli == nh < NH /\ Step(CloneOf(Mem, 1), [e |-> "Cli", h |-> nh], [a |-> "cli"])
Srv == nh < NH /\ Step([CloneOf(Mem, 1) EXCEPT !.hd[nh + 1].set["logtag"] = "s"], [e |-> "Srv", h |-> nh, tag |-> "s"], [a |-> "srv"])
Set(i, k, v) == hd[i].set[k] # v /\ Step([Mem EXCEPT !.hd[i].set[k] = v], [e |-> "Set", h |-> i - 1, k |-> k, v |-> v], [a |-> "set", h |-> i - 1, k |-> k])
Hook(i, k) == Step([Mem EXCEPT !.hd[i].hooks[k] = X, !.hd[i].own = IF Mistake = "late" /\ k = "over" THEN i ELSE @],
                   [e |-> "Hook", h |-> i - 1, k |-> k, x |-> X], [a |-> "hook", h |-> i - 1, k |-> k])
\* use: the middleware, and every chain (each a new one)
RECURSIVE UseChains(_, _, _, _)
UseChains(M, t, ms, x) == IF ms = {} THEN M
  ELSE LET m == CHOOSE y \in ms : TRUE
           c == IF Mistake = "chains" THEN App(M, M.tbl[t][m].sl, x) ELSE Copy(M, M.tbl[t][m].sl, x)
       IN UseChains([c[1] EXCEPT !.tbl[t][m].sl = c[2]], t, ms \ {m}, x)
Use(i) == LET a == App(Mem, hd[i].mids, X)
              M1 == [a[1] EXCEPT !.hd[i].mids = a[2]]
          IN Step(IF hd[i].t = -1 THEN M1 ELSE UseChains(M1, hd[i].t, DOMAIN M1.tbl[hd[i].t], X), [e |-> "Use", h |-> i - 1, x |-> X], [a |-> "use", h |-> i - 1])
Coder(i) == LET a == App(Mem, hd[i].cod, X) IN Step([a[1] EXCEPT !.hd[i].cod = a[2]], [e |-> "Coder", h |-> i - 1, x |-> X], [a |-> "coder", h |-> i - 1])
\* the table of a handler, made if there is none yet; with an entry for what is not found
WithTable(M, i, nf) ==
  LET M1 == IF M.hd[i].t # -1 THEN M ELSE [M EXCEPT !.tbl = Append(@, Empty), !.hd[i].t = Len(M.tbl) + 1]
      t == M1.hd[i].t
      c == Copy(M1, M1.hd[i].mids, "")
  IN IF "" \in DOMAIN M1.tbl[t] THEN M1 ELSE [c[1] EXCEPT !.tbl[t] = Upd(@, "", [sl |-> c[2], as |-> "false"])]
Handle(i, m) ==
  LET has == hd[i].t # -1 /\ m \in DOMAIN tbl[hd[i].t]
      ok == ~has /\ m \in {"a", "b"}
      M1 == WithTable(Mem, i, TRUE)
      c == Copy(M1, M1.hd[i].mids, X)
      M2 == [c[1] EXCEPT !.tbl[c[1].hd[i].t] = Upd(@, m, [sl |-> c[2], as |-> hd[i].set["asyncResponse"]])]
  IN Step(IF ok THEN M2 ELSE Mem, [e |-> "Handle", h |-> i - 1, m |-> m, x |-> X, as |-> "def", ok |-> ok], [a |-> "handle", h |-> i - 1, m |-> m])
NotFound(i) == LET M1 == WithTable(Mem, i, TRUE)
                   c == Copy(M1, M1.hd[i].mids, X)
               IN Step([c[1] EXCEPT !.tbl[c[1].hd[i].t] = Upd(@, "", [sl |-> c[2], as |-> "false"])], [e |-> "NotFound", h |-> i - 1, x |-> X], [a |-> "nf", h |-> i - 1])
Stream(i, m) ==
  LET M1 == IF hd[i].st # -1 THEN Mem ELSE [Mem EXCEPT !.tbl = Append(@, Empty), !.hd[i].st = Len(tbl) + 1]
      ok == m \notin DOMAIN M1.tbl[M1.hd[i].st]
      M2 == [M1 EXCEPT !.tbl[M1.hd[i].st] = Upd(@, m, [x |-> X, as |-> hd[i].set["asyncResponse"]])]
  IN Step(IF ok THEN M2 ELSE M1, [e |-> "Stream", h |-> i - 1, m |-> m, x |-> X, as |-> "def", ok |-> ok], [a |-> "stream", h |-> i - 1, m |-> m])
Cancel(i) == ~hd[i].canc /\ Step([Mem EXCEPT !.hd[i].canc = TRUE], [e |-> "Cancel", h |-> i - 1], [a |-> "cancel", h |-> i - 1])
On(a) == a \in Acts
Next == \/ (On("new") /\ New) \/ (On("cli") /\ Cli) \/ (On("srv") /\ Srv)
        \/ \E i \in 1..nh : \/ (On("clone") /\ Clone(i)) \/ (On("use") /\ Use(i)) \/ (On("coder") /\ Coder(i)) \/ (On("nf") /\ NotFound(i)) \/ (On("cancel") /\ Cancel(i))
                            \/ (On("hook") /\ (Hook(i, "over") \/ Hook(i, "done")))
                            \/ (On("handle") /\ (Handle(i, "a") \/ Handle(i, "b") \/ Handle(i, ""))) \/ (On("stream") /\ (Stream(i, "a") \/ Stream(i, "b")))
                            \/ (On("set") /\ (Set(i, "asyncResponse", "false") \/ Set(i, "recvBuf", X)))
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<hd, tbl, arr, nenv, mon, viol>>
GenDone == (nenv = MaxEnv) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
