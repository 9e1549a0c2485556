------------------------------- MODULE HttpSys -------------------------------
(* Model of serving posted frames: each HTTP request has its own goroutine, which runs the
   chain (in line, also where the method is registered as asynchronous) and returns; what
   is written goes to the writer of the connection made for that request.  Mistakes which
   can be built in: Detach (an asynchronous method's chain is left to a goroutine of its
   own), Shared (one connection for all requests).  Judged by HttpMon. *)
EXTENDS HttpMon, TLC, Json
CONSTANTS NReq, Pre, Post, MaxEnv, Kinds, Detach, Shared
VARIABLES pc, rq, cur, out, nenv, mon, viol, hist
vars == <<pc, rq, cur, out, nenv, mon, viol, hist>>
\* rq[k] = [kind, known, mode, ab]; pc[k] = [at (elements run), st ("no", "run", "held", "end", "gone"), ret]; out[k]: frames in k's response
R == 1..NReq
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Cfg == [pre |-> Pre, post |-> Post, nf |-> FALSE]
Init == /\ pc = [k \in R |-> [at |-> 0, st |-> "no", ret |-> FALSE]] /\ rq = [k \in R |-> [kind |-> "no", known |-> TRUE, mode |-> "", ab |-> 0]]
        /\ cur = 0 /\ out = [k \in R |-> <<>>] /\ nenv = 0 /\ hist = <<>> /\ mon = Init0(Cfg) /\ viol = {}
M(k) == [known |-> rq[k].known, m |-> "/a"]
Tok(k) == ToString(k)
FrameOf(k, w) == Frame([seq |-> Tok(k), as |-> FALSE, m |-> "/a"], w)
\* where k's writes go
Dst(k) == IF Shared THEN cur ELSE k
Put(k, ws) == IF ws = <<>> \/ pc[Dst(k)].ret THEN out ELSE [out EXCEPT ![Dst(k)] = @ \o [i \in 1..Len(ws) |-> FrameOf(k, ws[i])]]
LateEv(k, ws) == IF ws # <<>> /\ pc[Dst(k)].ret THEN <<[e |-> "Late", k |-> Dst(k)]>> ELSE <<>>
\* one element
Step(k) ==
  LET c == Chain(Cfg, M(k))
      i == pc[k].at + 1
      x == c[i]
      nfNow == ~rq[k].known /\ i = Pre + 1     \* the built-in not-found answer comes before it
      nfw == IF nfNow /\ rq[k].kind = "req" THEN <<[err |-> TRUE, tok |-> "notfound"]>> ELSE <<>>
      ab == rq[k].ab = i
      w == IF ab THEN <<[err |-> TRUE, tok |-> "ab"]>> ELSE IF x = "h/a" THEN (IF rq[k].mode = "val" THEN <<[err |-> FALSE, tok |-> "v"]>> ELSE <<>>) ELSE <<>>
      wv == IF rq[k].kind = "req" THEN w ELSE <<>>
  IN /\ pc[k].st = "run" /\ i <= Len(c)
     /\ pc' = [pc EXCEPT ![k].at = i, ![k].st = IF ab THEN "end" ELSE "run"]
     /\ out' = Put(k, nfw \o wv)
     /\ Emit(<<[e |-> "Run", k |-> k, x |-> x, ok |-> TRUE]>> \o [j \in 1..Len(wv) |-> [e |-> "Wr", k |-> k, err |-> wv[j].err, tok |-> wv[j].tok]]
             \o (IF ab THEN <<[e |-> "Cut", k |-> k]>> ELSE <<>>) \o LateEv(k, nfw \o wv))
     /\ UNCHANGED <<rq, cur, nenv, hist>>
Finish(k) ==
  LET c == Chain(Cfg, M(k))
      nfw == IF ~rq[k].known /\ Len(c) = Pre /\ rq[k].kind = "req" THEN <<[err |-> TRUE, tok |-> "notfound"]>> ELSE <<>>
  IN /\ pc[k].st = "run" /\ pc[k].at = Len(c) /\ pc' = [pc EXCEPT ![k].st = "end"] /\ out' = Put(k, nfw) /\ Emit(LateEv(k, nfw)) /\ UNCHANGED <<rq, cur, nenv, hist>>
Return(k) == /\ ~pc[k].ret /\ (pc[k].st = "end" \/ (Detach /\ pc[k].st = "run" /\ rq[k].known))
             /\ pc' = [pc EXCEPT ![k].ret = TRUE] /\ Emit(<<[e |-> "Resp", k |-> k, fr |-> out[k]]>>) /\ UNCHANGED <<rq, cur, out, nenv, hist>>
Send(k, kind, known, mode, ab) ==
  /\ nenv < MaxEnv /\ pc[k].st = "no" /\ (\A i \in R : i < k => pc[i].st # "no") /\ nenv' = nenv + 1 /\ cur' = k
  /\ rq' = [rq EXCEPT ![k] = [kind |-> kind, known |-> known, mode |-> mode, ab |-> ab]]
  /\ pc' = [pc EXCEPT ![k].st = IF kind \in {"req", "notify"} THEN "run" ELSE "end"]
  /\ Emit(<<[e |-> "Post", k |-> k, kind |-> kind, m |-> "/a", known |-> known, seq |-> Tok(k), as |-> FALSE]>>)
  /\ hist' = Append(hist, [a |-> "post", k |-> k, kind |-> kind, known |-> known, mode |-> mode, ab |-> ab]) /\ UNCHANGED out
Next == \/ \E k \in R : Step(k) \/ Finish(k) \/ Return(k)
        \/ \E k \in R, kind \in Kinds, known \in {TRUE, FALSE}, mode \in {"val", "none"}, ab \in 0..Pre : Send(k, kind, known, mode, ab)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<pc, rq, cur, out, nenv, mon, viol>>
GenDone == (nenv = MaxEnv /\ \A k \in R : pc[k].st # "no" => pc[k].ret) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
