------------------------------- MODULE HttpMon -------------------------------
(* Observable specification of calls over HTTP.

   Events; k is a posted body:
     Post(k,kind,m,known,seq,as)   it is posted; kind "req" / "notify" (well-formed frames; known: its method has a
                                   handler), "bad" (not exactly one frame) or "other" (a frame of another command)
     Run(k,x,ok)                   element x of the chain runs for it; ok: with exactly the method and content posted
     Wr(k,err,tok)                 that element writes a value (err: an error)
     Cut(k)                        that element aborts or panics
     Resp(k,fr)                    the HTTP response is complete; fr: the frames in its body
     Late(k)                       something is written after that
     Read(k)                       its body could not be read (it is then "bad")
     End                           everything had the time to end;   Leak / Crash / Hang
   cfg.pre / cfg.post: middleware registered before / after the methods; cfg.nf: a not-found handler is registered. *)
EXTENDS Integers, Sequences, FiniteSets
AllProps == {"C29"}
Empty == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
If(c, S) == IF c THEN S ELSE {}
Name(p, i) == p \o (<<"1", "2", "3", "4">>)[i]
\* the chain of a posted frame
Chain(cfg, r) == [i \in 1..cfg.pre |-> Name("m", i)] \o (IF r.known THEN <<"h" \o r.m>> ELSE IF cfg.nf THEN <<"nf">> ELSE <<>>) \o [i \in 1..cfg.post |-> Name("p", i)]
Init0(cfg) == [ cfg |-> cfg, rq |-> Empty ]
Apply(s, e) ==
  CASE e.e = "Post" -> [s EXCEPT !.rq = Upd(@, e.k, [kind |-> e.kind, m |-> e.m, known |-> e.known, seq |-> e.seq, as |-> e.as, ran |-> 0, cut |-> FALSE, wr |-> <<>>, done |-> FALSE])]
    [] e.e = "Run" /\ e.k \in DOMAIN s.rq -> [s EXCEPT !.rq[e.k].ran = @ + 1]
    [] e.e = "Cut" -> [s EXCEPT !.rq[e.k].cut = TRUE]
    [] e.e = "Wr" -> [s EXCEPT !.rq[e.k].wr = Append(@, [err |-> e.err, tok |-> e.tok])]
    [] e.e = "Resp" -> [s EXCEPT !.rq[e.k].done = TRUE]
    [] OTHER -> s
\* without a not-found handler, a request for an unknown method gets an error once the middleware before the methods is through
NotFound(s, r) == ~r.known /\ ~s.cfg.nf /\ (r.ran > s.cfg.pre \/ (r.ran = s.cfg.pre /\ ~r.cut))
Answer(s, r) == IF r.kind # "req" THEN <<>>
                ELSE (IF NotFound(s, r) THEN <<[err |-> TRUE, tok |-> "notfound"]>> ELSE <<>>) \o r.wr
Frame(r, w) == [cmd |-> 2, seq |-> r.seq, as |-> r.as, m |-> r.m, err |-> w.err, tok |-> w.tok]
Bad(s, e) ==
  CASE e.e = "Run" -> IF e.k \notin DOMAIN s.rq THEN {"C29"}
                      ELSE LET r == s.rq[e.k] c == Chain(s.cfg, r) IN
                           If(~e.ok \/ r.done \/ r.cut \/ r.kind \notin {"req", "notify"}, {"C29"})
                           \cup If(r.ran >= Len(c) \/ (r.ran < Len(c) /\ c[r.ran + 1] # e.x), {"C29"})
    [] e.e = "Resp" -> LET r == s.rq[e.k]
                           full == r.ran = Len(Chain(s.cfg, r)) \/ r.cut
                       IN If(r.done, {"C29"})
                          \cup If(r.kind \in {"req", "notify"} /\ ~full, {"C29"})
                          \cup If(r.kind # "other" /\ e.fr # [i \in 1..Len(Answer(s, r)) |-> Frame(r, Answer(s, r)[i])], {"C29"})
    [] e.e = "Late" -> {"C29"}
    [] e.e = "End" -> If(\E k \in DOMAIN s.rq : ~s.rq[k].done, {"C29"})
    [] e.e \in {"Leak", "Crash", "Hang"} -> AllProps
    [] OTHER -> {}
=============================================================================
