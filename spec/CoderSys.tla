------------------------------ MODULE CoderSys ------------------------------
(* Model of message coders: a message is content plus the layers around it; a sender
   applies every coder in order, one at a time, a receiver undoes them in reverse.  A
   message object may be shared by several links (a broadcast).  Mistakes which can be
   built in: Shared (the links of a broadcast encode one object), Order (the receiver
   decodes in registration order), Skip (a message submitted while the sender is idle
   skips the coders).  Judged by CoderMon. *)
EXTENDS CoderMon, TLC, Json
CONSTANTS NC, NCod, MaxMsg, Shared, Order, Skip
VARIABLES obj, nm, q, busy, wire, justQ, mon, viol, hist
vars == <<obj, nm, q, busy, wire, justQ, mon, viol, hist>>
\* links 1..NC: client to server; NC+1..2*NC: server to client
Links == 1..(2 * NC)
RECURSIVE Fold(_, _, _)
Fold(x, v, es) == IF es = <<>> THEN [m |-> x, v |-> v] ELSE Fold(Apply(x, Head(es)), v \cup Bad(x, Head(es)), Tail(es))
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r.m /\ viol' = r.v
Silent == UNCHANGED <<mon, viol>>
Nm(m) == ToString(m)
\* obj: objects [m, layers]; q[l]: object ids waiting; busy[l]: [o, next coder] or none; wire[l]: frames
Init == /\ obj = <<>> /\ nm = 0 /\ q = [l \in Links |-> <<>>] /\ busy = [l \in Links |-> <<>>] /\ wire = [l \in Links |-> <<>>] /\ justQ = TRUE /\ hist = <<>>
        /\ mon = Init0([layers |-> [i \in 1..NCod |-> i], carry |-> <<>>, all |-> FALSE]) /\ viol = {}
Take(l) == /\ busy[l] = <<>> /\ q[l] # <<>> /\ busy' = [busy EXCEPT ![l] = <<Head(q[l]).o, IF Skip /\ Head(q[l]).idle THEN NCod + 1 ELSE 1>>] /\ q' = [q EXCEPT ![l] = Tail(@)]
           /\ Silent /\ UNCHANGED <<obj, nm, wire, hist>> /\ justQ' = FALSE
Encode(l) == /\ busy[l] # <<>> /\ busy[l][2] <= NCod
             /\ obj' = [obj EXCEPT ![busy[l][1]].layers = Append(@, busy[l][2])] /\ busy' = [busy EXCEPT ![l][2] = @ + 1]
             /\ Silent /\ UNCHANGED <<nm, q, wire, hist>> /\ justQ' = FALSE
Write(l) == /\ busy[l] # <<>> /\ busy[l][2] = NCod + 1
            /\ LET o == obj[busy[l][1]] IN /\ wire' = [wire EXCEPT ![l] = Append(@, o)] /\ Emit(<<[e |-> "Wire", l |-> l, m |-> Nm(o.m), tags |-> o.layers]>>)
            /\ busy' = [busy EXCEPT ![l] = <<>>] /\ UNCHANGED <<obj, nm, q, hist>> /\ justQ' = FALSE
RECURSIVE Undo(_, _)
Undo(ls, cs) == IF cs = <<>> THEN [ls |-> ls, mis |-> <<>>]
                ELSE IF ls # <<>> /\ ls[Len(ls)] = Head(cs) THEN Undo(SubSeq(ls, 1, Len(ls) - 1), Tail(cs))
                ELSE LET r == Undo(ls, Tail(cs)) IN [ls |-> r.ls, mis |-> <<Head(cs)>> \o r.mis]
Decode(l) == /\ wire[l] # <<>>
             /\ LET f == Head(wire[l])
                    r == Undo(f.layers, IF Order THEN [i \in 1..NCod |-> i] ELSE [i \in 1..NCod |-> NCod + 1 - i])
                IN Emit([i \in 1..Len(r.mis) |-> [e |-> "Mis", i |-> r.mis[i]]] \o
                        <<[e |-> "Got", m |-> IF r.ls = <<>> THEN Nm(f.m) ELSE Nm(f.m) \o "?", l |-> l, vals |-> <<>>, hv |-> TRUE]>>)
             /\ wire' = [wire EXCEPT ![l] = Tail(@)] /\ UNCHANGED <<obj, nm, q, busy, hist>> /\ justQ' = FALSE
SysNext == \E l \in Links : Take(l) \/ Encode(l) \/ Write(l) \/ Decode(l)
EnvStep(h) == nm < MaxMsg /\ nm' = nm + 1 /\ justQ' = FALSE /\ hist' = Append(hist, [q |-> justQ] @@ h)
Ent(l, o) == [o |-> o, idle |-> q[l] = <<>> /\ busy[l] = <<>>]
Submit(l) == /\ obj' = Append(obj, [m |-> nm + 1, layers |-> <<>>]) /\ q' = [q EXCEPT ![l] = Append(@, Ent(l, Len(obj) + 1))]
             /\ Emit(<<[e |-> "Sub", m |-> Nm(nm + 1), l |-> l, vals |-> <<>>]>>) /\ EnvStep([a |-> "sub", m |-> nm + 1, l |-> l]) /\ UNCHANGED <<busy, wire>>
Down(i) == NC + i
Bcast == /\ obj' = obj \o [i \in 1..(IF Shared THEN 1 ELSE NC) |-> [m |-> nm + 1, layers |-> <<>>]]
         /\ q' = [l \in Links |-> IF l > NC THEN Append(q[l], Ent(l, Len(obj) + IF Shared THEN 1 ELSE l - NC)) ELSE q[l]]
         /\ Emit([i \in 1..NC |-> [e |-> "Sub", m |-> Nm(nm + 1), l |-> Down(i), vals |-> <<>>]])
         /\ EnvStep([a |-> "bcast", m |-> nm + 1, l |-> 0]) /\ UNCHANGED <<busy, wire>>
Quiet == ~justQ /\ ~ENABLED SysNext /\ justQ' = TRUE /\ Emit(<<[e |-> "Quiet"]>>) /\ UNCHANGED <<obj, nm, q, busy, wire, hist>>
Next == SysNext \/ Quiet \/ Bcast \/ \E l \in Links : Submit(l)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
View == <<obj, nm, q, busy, wire, justQ, mon, viol>>
GenDone == (nm = MaxMsg /\ justQ) => PrintT("SCEN " \o ToJson(hist))
=============================================================================
