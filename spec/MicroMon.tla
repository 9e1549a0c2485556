------------------------------ MODULE MicroMon -------------------------------
(* Observable specification of a service manager: services have nodes (address, weight)
   which a registry adds and deletes; lookups return a client of a usable node.

   Events; d is a node 1..n (belonging to one service sv(d) = cfg.sv[d]):
     AddB(d,w) AddE(d)   DelB(d) DelE(d)     a registry's notifications (adding again changes nothing)
     Link(d,c)           connection c to node d is established      Shut(d,c) it is closed from this side
     Down(d)             node d fails: its connections are lost and it refuses new ones      Up(d)  it accepts again
     NextB(k,s) NextE(k,res,d)   a lookup for service s: "ok" and the node of the client, "notfound" or "unreach"
     Quiet(t) / Leak / Crash / Hang                                                   *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C25"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}

\* reg[d]: registered: "y", "n" or "m" while it changes; st[d]: usable likewise
Init0(cfg) == [ cfg |-> cfg, reg |-> [d \in 1..cfg.n |-> "n"], st |-> [d \in 1..cfg.n |-> "n"], w |-> [d \in 1..cfg.n |-> 0], ops |-> [d \in 1..cfg.n |-> 0],
                acc |-> [d \in 1..cfg.n |-> TRUE], since |-> [d \in 1..cfg.n |-> 0], conns |-> {}, dead |-> {}, ch |-> Empty,
                seg |-> [v \in 1..cfg.ns |-> <<>>], segok |-> [v \in 1..cfg.ns |-> FALSE], par |-> [v \in 1..cfg.ns |-> FALSE] ]
N(s) == 1..s.cfg.n
Of(s, v) == {d \in N(s) : s.cfg.sv[d] = v}
Conns(s, d) == {x \in s.conns : x[1] = d}
Live(s, d) == {x \in Conns(s, d) : x[2] \notin s.dead}

\* member d changes
Touch(s, d, r, u, t) ==
  [s EXCEPT !.reg[d] = r, !.st[d] = u, !.segok[s.cfg.sv[d]] = FALSE, !.since[d] = t,
            !.ch = [k \in DOMAIN s.ch |-> [s.ch[k] EXCEPT !.y = IF u # "y" THEN @ \ {d} ELSE @, !.n = IF u # "n" THEN @ \ {d} ELSE @,
                                                          !.ry = IF r # "y" THEN @ \ {d} ELSE @, !.rn = IF r # "n" THEN @ \ {d} ELSE @]]]
Mb(x) == IF x = "n" THEN "n" ELSE "m"
\* what is certain once nothing moves: t ms
Sure(s, d, t) ==
  IF s.ops[d] > 0 THEN s
  ELSE IF s.reg[d] = "n" THEN (IF s.st[d] = "n" THEN s ELSE Touch(s, d, "n", "n", t))
  ELSE IF ~s.acc[d] THEN (IF s.st[d] = "n" THEN s ELSE Touch(s, d, s.reg[d], "n", t))
  ELSE IF s.st[d] # "y" /\ t - s.since[d] >= s.cfg.settle THEN Touch(s, d, s.reg[d], "y", t)
  ELSE s
RECURSIVE SureAll(_, _, _)
SureAll(s, D, t) == IF D = {} THEN s ELSE LET d == CHOOSE x \in D : TRUE IN SureAll(Sure(s, d, t), D \ {d}, t)
W(s, v) == LET D == {d \in Of(s, v) : s.reg[d] = "y"} IN D
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN f[d] + Sum(f, D \ {d})
\* a stretch in which all of a service's nodes are usable
Segs(s) == [s EXCEPT !.segok = [v \in 1..s.cfg.ns |-> s.segok[v] \/ ((\A d \in Of(s, v) : s.reg[d] # "m" /\ (s.reg[d] = "y" => s.st[d] = "y"))
                                                                        /\ W(s, v) # {} /\ \A k \in DOMAIN s.ch : s.ch[k].v # v)],
                     !.seg = [v \in 1..s.cfg.ns |-> IF s.segok[v] THEN s.seg[v] ELSE <<>>],
                     !.par = [v \in 1..s.cfg.ns |-> IF s.segok[v] THEN s.par[v] ELSE FALSE]]

Apply(s, e) ==
  CASE e.e = "AddB" -> LET s1 == [s EXCEPT !.ops[e.d] = @ + 1, !.w[e.d] = IF s.reg[e.d] = "n" THEN e.w ELSE @]
                       IN IF s.reg[e.d] = "n" THEN Touch(s1, e.d, "m", "m", e.t) ELSE s1
    [] e.e = "AddE" -> LET s1 == [s EXCEPT !.ops[e.d] = @ - 1] IN IF s.reg[e.d] = "m" THEN Touch(s1, e.d, "y", s1.st[e.d], e.t) ELSE s1
    [] e.e = "DelB" -> LET s1 == [s EXCEPT !.ops[e.d] = @ + 1] IN IF s.reg[e.d] = "n" THEN s1 ELSE Touch(s1, e.d, "m", Mb(s.st[e.d]), e.t)
    [] e.e = "DelE" -> LET s1 == [s EXCEPT !.ops[e.d] = @ - 1] IN IF s.reg[e.d] = "n" THEN s1 ELSE Touch(s1, e.d, "n", "n", e.t)
    [] e.e = "Link" -> LET s1 == [s EXCEPT !.conns = @ \cup {<<e.d, e.c>>}] IN IF s.reg[e.d] = "n" \/ s.st[e.d] = "y" THEN s1 ELSE Touch(s1, e.d, s.reg[e.d], "m", e.t)
    [] e.e = "Shut" -> [s EXCEPT !.conns = @ \ {<<e.d, e.c>>}]
    [] e.e = "Down" -> [(IF s.reg[e.d] = "n" THEN s ELSE Touch(s, e.d, s.reg[e.d], Mb(s.st[e.d]), e.t)) EXCEPT !.acc[e.d] = FALSE, !.dead = @ \cup {x[2] : x \in Conns(s, e.d)}]
    [] e.e = "Up" -> [(IF s.reg[e.d] = "n" THEN s ELSE Touch(s, e.d, s.reg[e.d], "m", e.t)) EXCEPT !.acc[e.d] = TRUE]
    [] e.e = "NextB" -> [s EXCEPT !.ch = Upd(s.ch, e.k, [v |-> e.s, y |-> {d \in Of(s, e.s) : s.st[d] = "y"}, n |-> {d \in N(s) : s.st[d] = "n"},
                                                         ry |-> {d \in Of(s, e.s) : s.reg[d] = "y"}, rn |-> {d \in Of(s, e.s) : s.reg[d] = "n"}]),
                                  !.par[e.s] = @ \/ \E k \in DOMAIN s.ch : s.ch[k].v = e.s]
    [] e.e = "NextE" -> LET v == s.ch[e.k].v IN [s EXCEPT !.ch = [k \in DOMAIN s.ch \ {e.k} |-> s.ch[k]], !.seg[v] = IF e.res = "ok" THEN Append(@, e.d) ELSE @]
    [] e.e = "Quiet" -> Segs(SureAll(s, N(s), e.t))
    [] OTHER -> s

Cnt(q, d) == Cardinality({j \in 1..Len(q) : q[j] = d})
\* of the last W choices each node got its weight
Weighted(s, v, q) == LET D == W(s, v)
                         tot == Sum(s.w, D)
                         last == IF Len(q) >= tot THEN SubSeq(q, Len(q) - tot + 1, Len(q)) ELSE <<>>
                     IN Len(q) < tot \/ \A d \in D : Cnt(last, d) = s.w[d]
Fair(s, v, q) == LET D == W(s, v)
                     tot == Sum(s.w, D)
                     r == Len(q) \div tot
                 IN \A d \in D : Cnt(q, d) >= r * s.w[d] /\ Cnt(q, d) <= (r + 1) * s.w[d]

Bad(s, e) ==
  CASE e.e = "NextE" ->
         LET c == s.ch[e.k] IN
         (IF e.res = "ok"
          THEN If(e.d \notin Of(s, c.v) \/ e.d \in c.n, {"C25"})
               \cup If(s.segok[c.v] /\ ~s.par[c.v] /\ ~Weighted(s, c.v, Append(s.seg[c.v], e.d)), {"C25"})
          ELSE If(c.y # {}, {"C25"})
               \cup If(e.res = "notfound" /\ c.ry # {}, {"C25"})
               \cup If(e.res = "unreach" /\ c.rn = Of(s, c.v), {"C25"})
               \cup If(e.res \notin {"notfound", "unreach"}, {"C25"}))
    [] e.e = "Quiet" ->
         If(\E v \in 1..s.cfg.ns : s.segok[v] /\ (\A k \in DOMAIN s.ch : s.ch[k].v # v) /\ ~Fair(s, v, s.seg[v]), {"C25"})
         \* connections: one for a registered node, none for another
         \cup If(\E d \in N(s) : Cardinality(Conns(s, d)) > 1 /\ e.t - s.since[d] >= s.cfg.settle, {"C25"})
         \cup If(\E d \in N(s) : s.ops[d] = 0 /\ s.reg[d] = "n" /\ e.t - s.since[d] >= s.cfg.settle /\ Conns(s, d) # {}, {"C25"})
         \cup If(\E d \in N(s) : s.ops[d] = 0 /\ s.reg[d] = "y" /\ s.acc[d] /\ e.t - s.since[d] >= s.cfg.settle /\ Live(s, d) = {}, {"C25"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
