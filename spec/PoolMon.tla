------------------------------- MODULE PoolMon -------------------------------
(* Observable specification of a pool of clients.

   Events; i is a member 1..n:
     Link(i)            a connection for member i is established       Shut(i)  it is closed by the pool's side
     Down(i)            member i's connection is lost (its peer refuses new ones until Up)
     Up(i)              ... and accepts again
     StopM(i)           member i was stopped by the application         PoolStop: the whole pool was
     New(ok)            creation of the pool returned
     NextB(k) NextE(k,i) a chooser asks for a client and gets member i (0: none of them)
     Get(idx,i)         indexed access
     Call(i,ok)         a call made through member i
     Quiet / Leak / Crash / Hang                                                   *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C22"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}

\* st[i]: "y" usable, "n" unusable, "m" changing
Init0(cfg) == [ cfg |-> cfg, st |-> [i \in 1..cfg.n |-> "m"], up |-> {}, open |-> {}, stop |-> {}, made |-> "no",
                ch |-> Empty, seg |-> <<>>, segok |-> FALSE, par |-> FALSE, cnt |-> [i \in 1..cfg.n |-> 0] ]
N(s) == s.cfg.n
\* a change of member i ends the stretch in which all are usable
Set(s, i, v) ==
  [s EXCEPT !.st[i] = v, !.segok = FALSE,
            !.ch = [k \in DOMAIN s.ch |-> [s.ch[k] EXCEPT !.y = IF v # "y" THEN @ \ {i} ELSE @, !.n = IF v # "n" THEN @ \ {i} ELSE @]]]
RECURSIVE SetAll(_, _, _)
SetAll(s, S, v) == IF S = {} THEN s ELSE LET i == CHOOSE x \in S : TRUE IN SetAll(Set(s, i, v), S \ {i}, v)
NewSeg(s) == [s EXCEPT !.segok = (\A i \in 1..N(s) : s.st[i] = "y") /\ DOMAIN s.ch = {}, !.seg = <<>>, !.par = FALSE, !.cnt = [i \in 1..N(s) |-> 0]]

QuietApply(s) ==
  LET ys == {i \in 1..N(s) : s.st[i] = "m" /\ i \in s.up /\ i \notin s.stop}
      ns == {i \in 1..N(s) : s.st[i] = "m" /\ i \notin s.up}
      s1 == SetAll(SetAll(s, ys, "y"), ns, "n")
  IN IF s.made # "ok" THEN s ELSE IF ys \cup ns # {} \/ ~s.segok THEN NewSeg(s1) ELSE s1

Apply(s, e) ==
  CASE e.e = "Link" -> [Set(s, e.i, "m") EXCEPT !.up = @ \cup {e.i}, !.open = @ \cup {e.c}]
    [] e.e = "Shut" -> [s EXCEPT !.open = @ \ {e.c}]
    [] e.e = "Down" -> [Set(s, e.i, "m") EXCEPT !.up = @ \ {e.i}]
    [] e.e = "StopB" -> [Set(s, e.i, "m") EXCEPT !.stop = @ \cup {e.i}, !.up = @ \ {e.i}]
    [] e.e = "StopM" -> Set(s, e.i, "n")
    [] e.e = "PoolStop" -> SetAll([s EXCEPT !.stop = 1..N(s), !.up = {}], 1..N(s), "n")
    [] e.e = "New" -> [s EXCEPT !.made = IF e.ok THEN "ok" ELSE "failed"]
    [] e.e = "NextB" -> [s EXCEPT !.ch = Upd(s.ch, e.k, [y |-> {i \in 1..N(s) : s.st[i] = "y"}, n |-> {i \in 1..N(s) : s.st[i] = "n"}]),
                                  !.par = @ \/ DOMAIN s.ch # {}]
    [] e.e = "NextE" -> [s EXCEPT !.ch = [k \in DOMAIN s.ch \ {e.k} |-> s.ch[k]], !.seg = Append(@, e.i), !.cnt = IF e.i \in 1..N(s) THEN [@ EXCEPT ![e.i] = @ + 1] ELSE @]
    [] e.e = "Quiet" -> QuietApply(s)
    [] OTHER -> s

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Bad(s, e) ==
  CASE e.e = "NextE" ->
         If(e.i \notin 1..N(s), {"C22"})
         \cup If(e.i \in s.ch[e.k].n /\ s.ch[e.k].y # {}, {"C22"})
         \* one chooser at a time: the last n-1 choices were of other members
         \cup If(s.segok /\ ~s.par /\ \E j \in 1..Len(s.seg) : j > Len(s.seg) - (N(s) - 1) /\ s.seg[j] = e.i, {"C22"})
    [] e.e = "Get" -> If(e.i # (e.idx % N(s)) + 1, {"C22"})
    [] e.e = "New" -> If(e.ok /\ e.size # N(s), {"C22"}) \cup If(e.ok = s.cfg.fails, {"C22"})
    [] e.e = "Call" -> If(~e.ok /\ s.st[e.i] = "y", {"C22"}) \cup If(e.ok /\ s.st[e.i] = "n", {"C22"})
    [] e.e = "Quiet" ->
         If(s.segok /\ DOMAIN s.ch = {} /\ Max({s.cnt[i] : i \in 1..N(s)}) - Min({s.cnt[i] : i \in 1..N(s)}) > 1, {"C22"})
         \cup If(DOMAIN s.ch # {}, {"C22"})
         \cup If((s.made = "failed" \/ s.stop = 1..N(s)) /\ s.open # {}, {"C22"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
