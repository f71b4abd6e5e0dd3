---------------------------- MODULE ServiceTrace ----------------------------
(* Validates recorded lives of the real manager against Service.Step.       *)
EXTENDS Service, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}

VARIABLES t, pos, ss, ok
vars == <<t, pos, ss, ok>>

(* kinds of a session that was over before it began: the milter may or may *)
(* not have heard of it                                                    *)
Gone(s, s1) == s.lost \ s1.lost
KidOk(x, q) == q \in {<<"neg", "eof">>, <<"neg", "quit", "eof">>}

KOk(s, r, o) ==
  LET got == Pairs(o.k)
      gone == IF s.quit # r.s.quit THEN s.lost ELSE Gone(s, r.s)
  IN /\ {p \in got : p[1] \notin gone} = r.k
     /\ \A p \in got : p[1] \in gone => KidOk(p[1], p[2])

(* while the manager is leaving its files may or may not be there          *)
FileOk(now, then, got, leaving) == IF leaving THEN got \in {now, then} ELSE got = now

Diffs(c, s, r, o) ==
  LET s1 == r.s
      leaving == s1.quit /\ s1.up
      x == Exit([s1 EXCEPT !.live = <<>>])
      mode == IF o.sock = "sock" THEN c.mode ELSE ""
  IN (IF Pairs(o.m) = r.m THEN {} ELSE {"mta"})
     \cup (IF KOk(s, r, o) THEN {} ELSE {"milter"})
     \cup (IF o.rc = r.rc THEN {} ELSE {"connect"})
     \cup (IF o.up = s1.up THEN {} ELSE {"up"})
     \cup (IF s1.up THEN (IF Rng(o.st) = {} \/ (s1.quit /\ c.workers > 0 /\ Rng(o.st) = {0}) THEN {} ELSE {"status"})
           ELSE IF s1.quit THEN (IF Rng(o.st) = {0} THEN {} ELSE {"status"})
           ELSE IF Rng(o.st) # {} /\ 0 \notin Rng(o.st) THEN {} ELSE {"status"})
     \cup (IF FileOk(s1.sock, x.sock, o.sock, leaving) THEN {} ELSE {"socket"})
     \cup (IF o.mode = mode THEN {} ELSE {"mode"})
     \cup (IF FileOk(s1.pid, x.pid, o.pid, leaving) THEN {} ELSE {"pid"})

Init == /\ t \in 1..Len(Traces) /\ pos = 0 /\ ss = {Init0(Traces[t].cfg)} /\ ok = TRUE

Report(e, outs) ==
  LET best == CHOOSE x \in outs : \A y \in outs : Cardinality(x.d) <= Cardinality(y.d)
  IN PrintT("@@MISMATCH " \o ToJson([trace |-> t, step |-> pos + 1, event |-> e, differs |-> best.d,
            exp |-> [m |-> best.r.m, k |-> best.r.k, rc |-> best.r.rc, s |-> [best.r.s EXCEPT !.live = DOMAIN @]]]))

Next ==
  /\ ok
  /\ pos < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[pos + 1]
         c == Traces[t].cfg
         outs == UNION {{[r |-> r, d |-> Diffs(c, s, r, e.o)] : r \in Step(c, s, e)} : s \in ss}
         good == {x.r.s : x \in {y \in outs : y.d = {}}}
     IN IF good # {}
        THEN /\ Assert(\A s \in good : Sane(s), <<"insane", good>>)
             /\ pos' = pos + 1 /\ ss' = good /\ ok' = TRUE /\ UNCHANGED t
        ELSE Report(e, outs) /\ ok' = FALSE /\ UNCHANGED <<t, pos, ss>>

Spec == Init /\ [][Next]_vars
View == <<t, pos, ok>>
=============================================================================
