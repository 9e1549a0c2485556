------------------------------- MODULE WsSys -------------------------------
(* Model of the adaptor: a write puts one message, in two pieces, into the network (one
   writer at a time); a read without a rest takes the next message and hands out as much of
   it as fits, keeping the rest.  One end writes and may close; the other reads and may
   close.  Mistakes which can be built in: NoLock (writers are not serialised), DropRest
   (what does not fit is lost), Swap (a rest is handed out after the next message).
   Judged by WsMon. *)
EXTENDS WsMon, TLC, Json
CONSTANTS NW, NG, Sizes, Lims, MaxClose, NoLock, DropRest, Swap
VARIABLES wr, pc, lock, net, rest, stall, closed, rderr, nw, ncl, nst, q, mon, viol, hist
vars == <<wr, pc, lock, net, rest, stall, closed, rderr, nw, ncl, nst, q, mon, viol, hist>>
\* the writing end is "C"; pc[g] = [st ("no", "wait", "half"), w, n]
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
G == 1..NG
Init == /\ wr = 0 /\ pc = [g \in G |-> [st |-> "no", w |-> 0, n |-> 0]] /\ lock = 0 /\ net = <<>> /\ rest = <<>> /\ stall = FALSE /\ closed = {} /\ rderr = {}
        /\ nw = 0 /\ ncl = 0 /\ nst = 0 /\ q = FALSE /\ hist = <<>> /\ mon = Init0([x |-> 0]) /\ viol = {}
H(a) == hist' = Append(hist, a)
Write(g, n) == /\ nw < NW /\ pc[g].st = "no" /\ "C" \notin closed /\ nw' = nw + 1 /\ pc' = [pc EXCEPT ![g] = [st |-> "wait", w |-> nw + 1, n |-> n]]
               /\ Emit(<<[e |-> "WrB", x |-> "C", w |-> nw + 1, g |-> g, n |-> n]>>) /\ H([a |-> "wr", x |-> "C", g |-> g, n |-> n]) /\ q' = FALSE
               /\ UNCHANGED <<wr, lock, net, rest, stall, closed, rderr, ncl, nst>>
Half(n) == n \div 2
Put1(g) == /\ pc[g].st = "wait" /\ (NoLock \/ lock = 0) /\ ~stall /\ closed = {} /\ lock' = g /\ pc' = [pc EXCEPT ![g].st = "half"]
           /\ net' = Append(net, <<pc[g].w, 0, Half(pc[g].n)>>) /\ q' = FALSE /\ UNCHANGED <<wr, rest, stall, closed, rderr, nw, ncl, nst, mon, viol, hist>>
Put2(g) == /\ pc[g].st = "half" /\ ~stall /\ closed = {} /\ lock' = 0 /\ pc' = [pc EXCEPT ![g].st = "no"]
           /\ net' = Append(net, <<pc[g].w, Half(pc[g].n), pc[g].n - Half(pc[g].n)>>) /\ Emit(<<[e |-> "WrE", x |-> "C", w |-> pc[g].w, ok |-> TRUE]>>)
           /\ q' = FALSE /\ UNCHANGED <<wr, rest, stall, closed, rderr, nw, ncl, nst, hist>>
Fail(g) == /\ pc[g].st # "no" /\ closed # {} /\ (~stall \/ "C" \in closed) /\ pc' = [pc EXCEPT ![g].st = "no"] /\ lock' = IF lock = g THEN 0 ELSE lock
           /\ Emit(<<[e |-> "WrE", x |-> "C", w |-> pc[g].w, ok |-> FALSE]>>) /\ q' = FALSE /\ UNCHANGED <<wr, net, rest, stall, closed, rderr, nw, ncl, nst, hist>>
Take == /\ rest = <<>> /\ Len(net) >= 2 /\ "S" \notin closed /\ rest' = <<net[1], net[2]>> /\ net' = SubSeq(net, 3, Len(net)) /\ q' = FALSE
        /\ UNCHANGED <<wr, pc, lock, stall, closed, rderr, nw, ncl, nst, mon, viol, hist>>
\* the first n bytes of runs, and what remains
RECURSIVE Cut(_, _, _)
Cut(rs, n, acc) == IF rs = <<>> \/ n = 0 THEN <<acc, rs>>
                   ELSE LET r == Head(rs) IN IF r[3] <= n THEN Cut(Tail(rs), n - r[3], IF r[3] = 0 THEN acc ELSE Append(acc, r))
                        ELSE <<Append(acc, <<r[1], r[2], n>>), <<<<r[1], r[2] + n, r[3] - n>>>> \o Tail(rs)>>
Read(lim) == /\ rest # <<>> /\ "S" \notin closed
             /\ LET c == Cut(rest, lim, <<>>) left == SelectSeq(c[2], LAMBDA r : r[3] > 0) IN
                /\ Emit(<<[e |-> "Rd", x |-> "S", n |-> Sum(c[1]), lim |-> lim, segs |-> c[1]]>>)
                /\ IF Swap /\ left # <<>> /\ Len(net) >= 2 THEN rest' = <<net[1], net[2]>> \o left /\ net' = SubSeq(net, 3, Len(net))
                   ELSE rest' = (IF DropRest THEN <<>> ELSE left) /\ UNCHANGED net
             /\ H([a |-> "rd", x |-> "S", n |-> lim]) /\ q' = FALSE /\ UNCHANGED <<wr, pc, lock, stall, closed, rderr, nw, ncl, nst>>
RdErr(x) == /\ x \notin rderr /\ closed # {} /\ (x \in closed \/ (x = "C" /\ closed # {}) \/ (x = "S" /\ "C" \in closed /\ ~stall /\ Len(net) < 2 /\ rest = <<>>))
            /\ rderr' = rderr \cup {x} /\ Emit(<<[e |-> "RdErr", x |-> x]>>) /\ q' = FALSE /\ UNCHANGED <<wr, pc, lock, net, rest, stall, closed, nw, ncl, nst, hist>>
Close(x) == /\ ncl < MaxClose /\ x \notin closed /\ nw > 0 /\ ncl' = ncl + 1 /\ closed' = closed \cup {x} /\ Emit(<<[e |-> "CloseB", x |-> x], [e |-> "CloseE", x |-> x]>>)
            /\ H([a |-> "close", x |-> x]) /\ q' = FALSE /\ UNCHANGED <<wr, pc, lock, net, rest, stall, rderr, nw, nst>>
Stall(on) == /\ stall # on /\ closed = {} /\ (on => nst < 1) /\ nst' = nst + 1 /\ stall' = on /\ Emit(<<[e |-> "Stall", x |-> "C", on |-> on]>>) /\ H([a |-> "stall", x |-> "C", on |-> on]) /\ q' = FALSE
             /\ UNCHANGED <<wr, pc, lock, net, rest, closed, rderr, nw, ncl>>
Busy == \/ \E g \in G : ENABLED Put1(g) \/ ENABLED Put2(g) \/ ENABLED Fail(g)
        \/ ENABLED Take \/ (rest # <<>> /\ "S" \notin closed) \/ \E x \in {"C", "S"} : ENABLED RdErr(x)
Quiet == /\ ~q /\ hist # <<>> /\ ~Busy /\ q' = TRUE /\ Emit(<<[e |-> "Quiet"]>>) /\ H([a |-> "quiet"]) /\ UNCHANGED <<wr, pc, lock, net, rest, stall, closed, rderr, nw, ncl, nst>>
Next == \/ \E g \in G : Put1(g) \/ Put2(g) \/ Fail(g) \/ \E n \in Sizes : Write(g, n)
        \/ Take \/ (\E l \in Lims : Read(l)) \/ (\E x \in {"C", "S"} : RdErr(x) \/ Close(x)) \/ (\E on \in {TRUE, FALSE} : Stall(on)) \/ Quiet
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<wr, pc, lock, net, rest, stall, closed, rderr, nw, ncl, nst, q, mon, viol>>
GenDone == (q /\ nw = NW /\ ncl = MaxClose) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
