------------------------------- MODULE LnSys -------------------------------
(* Model of the dual listener: connections wait in the system's accept queue; the loop
   takes one, counts it, and sends it into the channel of a side (three steps); the sides
   receive; Close closes both channels, then the listener.  Accepting can fail for a while
   (no descriptors).  Mistakes which can be built in: NoRestore (a connection for side B
   stays counted), OffByOne, ErrEnds (a temporary error ends the loop), LeakLate (what
   cannot be sent after closing is not closed), ChanFirst is how it is done; OnlyA (Close
   closes side A's channel only), NoLnClose (the listener stays open).  Judged by LnMon. *)
EXTENDS LnMon, TLC, Json
CONSTANTS NConn, Max, MaxEnv, MinEnv, NErr, NoRestore, OffByOne, ErrEnds, LeakLate, OnlyA, NoLnClose
VARIABLES kq, pc, cur, on, ch, cls, lnc, err, conn, nenv, nerr, mon, viol, hist
vars == <<kq, pc, cur, on, ch, cls, lnc, err, conn, nenv, nerr, mon, viol, hist>>
\* kq: accept queue; pc: "acc", "count", "sendA", "sendB", "end"; cls: closed channels; lnc: 0 open, 1 closing, 2 closed; err: accepting fails now
\* conn[k]: "no", "open", "gotA", "gotB", "off", "shut"
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
K == 1..NConn
Init == /\ kq = <<>> /\ pc = "acc" /\ cur = 0 /\ on = 0 /\ ch = [A |-> <<>>, B |-> <<>>] /\ cls = {} /\ lnc = 0 /\ err = FALSE
        /\ conn = [k \in K |-> "no"] /\ nenv = 0 /\ nerr = 0 /\ hist = <<>> /\ mon = Init0([max |-> Max]) /\ viol = {}
H(a) == hist' = Append(hist, a)
Dial(k) == /\ nenv < MaxEnv /\ lnc = 0 /\ conn[k] = "no" /\ (\A j \in K : j < k => conn[j] # "no") /\ nenv' = nenv + 1
           /\ kq' = Append(kq, k) /\ conn' = [conn EXCEPT ![k] = "open"] /\ Emit(<<[e |-> "DialB", k |-> k], [e |-> "DialE", k |-> k, ok |-> TRUE]>>)
           /\ H([a |-> "dial", k |-> k]) /\ UNCHANGED <<pc, cur, on, ch, cls, lnc, err, nerr>>
Off(k) == /\ nenv < MaxEnv /\ conn[k] = "gotA" /\ nenv' = nenv + 1 /\ on' = on - 1 /\ conn' = [conn EXCEPT ![k] = "off"]
          /\ Emit(<<[e |-> "SrvClose", k |-> k], [e |-> "OffB"], [e |-> "OffE"], [e |-> "CliEnd", k |-> k]>>)
          /\ H([a |-> "off", k |-> k]) /\ UNCHANGED <<kq, pc, cur, ch, cls, lnc, err, nerr>>
ErrOn == /\ nenv < MaxEnv /\ nerr < NErr /\ ~err /\ lnc = 0 /\ err' = TRUE /\ nerr' = nerr + 1 /\ nenv' = nenv + 1 /\ H([a |-> "err"]) /\ UNCHANGED <<kq, pc, cur, on, ch, cls, lnc, conn, mon, viol>>
ErrOff == /\ err /\ err' = FALSE /\ H([a |-> "noerr"]) /\ UNCHANGED <<kq, pc, cur, on, ch, cls, lnc, conn, nenv, nerr, mon, viol>>
\* the loop
Accept == /\ pc = "acc"
          /\ IF lnc = 2 THEN pc' = "end" /\ Emit(<<[e |-> "RunEnd"]>>) /\ UNCHANGED <<kq, cur>>
             ELSE kq # <<>> /\ (IF err THEN ErrEnds /\ pc' = "end" /\ Emit(<<[e |-> "RunEnd"]>>) /\ UNCHANGED <<kq, cur>>
                                ELSE pc' = "count" /\ cur' = Head(kq) /\ kq' = Tail(kq) /\ UNCHANGED <<mon, viol>>)
          /\ UNCHANGED <<on, ch, cls, lnc, err, conn, nenv, nerr, hist>>
Lim == IF OffByOne THEN Max + 1 ELSE Max
Count == /\ pc = "count" /\ LET a == on + 1 <= Lim IN pc' = (IF a THEN "sendA" ELSE "sendB") /\ on' = (IF a \/ NoRestore THEN on + 1 ELSE on)
         /\ UNCHANGED <<kq, cur, ch, cls, lnc, err, conn, nenv, nerr, mon, viol, hist>>
Snd(side) == /\ pc = "send" \o side /\ pc' = "acc"
             /\ IF side \in cls THEN /\ UNCHANGED ch
                                     /\ IF LeakLate THEN UNCHANGED <<conn, mon, viol>> ELSE conn' = [conn EXCEPT ![cur] = "shut"] /\ Emit(<<[e |-> "CliEnd", k |-> cur]>>)
                ELSE ch' = [ch EXCEPT ![side] = Append(@, cur)] /\ UNCHANGED <<conn, mon, viol>>
             /\ UNCHANGED <<kq, cur, on, cls, lnc, err, nenv, nerr, hist>>
\* a side accepts
Acc(side) == /\ side \notin mon.err
             /\ IF ch[side] # <<>> THEN LET k == Head(ch[side]) IN
                   ch' = [ch EXCEPT ![side] = Tail(@)] /\ conn' = [conn EXCEPT ![k] = "got" \o side] /\ Emit(<<[e |-> "Got", k |-> k, side |-> side, ok |-> TRUE]>>)
                ELSE side \in cls /\ Emit(<<[e |-> "AccErr", side |-> side, closed |-> TRUE]>>) /\ UNCHANGED <<ch, conn>>
             /\ H([a |-> "acc", side |-> side]) /\ UNCHANGED <<kq, pc, cur, on, cls, lnc, err, nenv, nerr>>
CloseB == /\ lnc = 0 /\ ~err /\ nenv >= MinEnv /\ lnc' = 1 /\ Emit(<<[e |-> "CloseB"]>>) /\ H([a |-> "close"]) /\ UNCHANGED <<kq, pc, cur, on, ch, cls, err, conn, nenv, nerr>>
CloseC(side) == /\ lnc = 1 /\ side \notin cls /\ (side = "B" => "A" \in cls) /\ ~(OnlyA /\ side = "B") /\ cls' = cls \cup {side}
                /\ UNCHANGED <<kq, pc, cur, on, ch, lnc, err, conn, nenv, nerr, mon, viol, hist>>
RECURSIVE Ends(_)
Ends(q) == IF q = <<>> THEN <<>> ELSE <<[e |-> "CliEnd", k |-> Head(q)]>> \o Ends(Tail(q))
CloseL == /\ lnc = 1 /\ ("B" \in cls \/ (OnlyA /\ "A" \in cls)) /\ lnc' = (IF NoLnClose THEN 3 ELSE 2)
          /\ kq' = (IF NoLnClose THEN kq ELSE <<>>) /\ conn' = [k \in K |-> IF ~NoLnClose /\ \E i \in 1..Len(kq) : kq[i] = k THEN "shut" ELSE conn[k]]
          /\ Emit((IF NoLnClose THEN <<>> ELSE Ends(kq)) \o <<[e |-> "CloseE"], [e |-> "LateDial", ok |-> NoLnClose]>>) /\ UNCHANGED <<pc, cur, on, ch, cls, err, nenv, nerr, hist>>
Busy == \/ (pc = "acc" /\ (lnc = 2 \/ (kq # <<>> /\ (~err \/ ErrEnds)))) \/ pc \in {"count", "sendA", "sendB"} \/ lnc = 1
        \/ \E side \in {"A", "B"} : side \notin mon.err /\ (ch[side] # <<>> \/ side \in cls)
Quiet == ~Busy /\ ~err
Calm == /\ Quiet /\ lnc = 0 /\ hist # <<>> /\ hist[Len(hist)].a # "calm" /\ Emit(<<[e |-> "Calm"]>>) /\ H([a |-> "calm"]) /\ UNCHANGED <<kq, pc, cur, on, ch, cls, lnc, err, conn, nenv, nerr>>
End == /\ Quiet /\ lnc >= 2 /\ hist[Len(hist)].a # "end" /\ Emit(<<[e |-> "End"]>>) /\ H([a |-> "end"]) /\ UNCHANGED <<kq, pc, cur, on, ch, cls, lnc, err, conn, nenv, nerr>>
Next == \/ \E k \in K : Dial(k) \/ Off(k)
        \/ ErrOn \/ ErrOff \/ Accept \/ Count \/ CloseB \/ CloseL \/ Calm \/ End
        \/ \E side \in {"A", "B"} : Snd(side) \/ Acc(side) \/ CloseC(side)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<kq, pc, cur, on, ch, cls, lnc, err, conn, nenv, nerr, mon, viol, IF hist # <<>> THEN hist[Len(hist)].a \in {"calm", "end"} ELSE FALSE>>
GenDone == (hist # <<>> /\ hist[Len(hist)].a = "end") => PrintT("SCEN " \o ToJson(hist))
=============================================================================
