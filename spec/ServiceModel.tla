---------------------------- MODULE ServiceModel ----------------------------
(***************************************************************************)
(* A life of the manager, closed with MTAs that come, talk, leave or give  *)
(* up, an operator who reloads it and tells it to leave, and time.  What   *)
(* has to hold is stated again here, from what MTAs and milters see (h)    *)
(* and, for what must happen in the end, in temporal logic.                *)
(***************************************************************************)
EXTENDS Service
CONSTANTS X,            \* sessions
          Maxs, Susps,  \* limits and suspend times
          Pres,         \* what is at the socket's path before
          MaxHup, MaxCmd

VARIABLES c, s, h
vars == <<c, s, h>>

(* st: what became of each connection; arr: waiting and served, in order   *)
(* of arrival; adm: those served so far, in the order it happened          *)
H0 == [st |-> [x \in X |-> "none"], arr |-> <<>>, adm |-> <<>>, hups |-> 0, told |-> FALSE, rmx |-> FALSE, bad |-> {}]

Init ==
  \E m \in Maxs, u \in Susps, p \in Pres, r1, r2, un \in BOOLEAN :
    /\ c = [unix |-> un, pre |-> IF un THEN p ELSE "none", prepid |-> FALSE, pid |-> TRUE, rmc |-> r1, rmx |-> r2, max |-> m, susp |-> u,
            workers |-> 0, mode |-> ""]
    /\ s = Init0(c) /\ h = [H0 EXCEPT !.rmx = r2]

Flag(b, n) == IF b THEN {} ELSE {n}
New(r) == {p[1] : p \in {q \in r.k : q[2] = <<"neg">>}}
Ended(r) == {p[1] : p \in {q \in r.k : q[2] = <<"quit", "eof">>}}
Refused(r) == {p[1] : p \in {q \in r.m : q[2] = <<"eof">>}}

(* served in the order of arrival, leaving out who gave up                 *)
InOrder(arr, lost, adm) ==
  \A i, j \in DOMAIN arr : (i < j /\ arr[j] \in Rng(adm) /\ arr[i] \notin lost) =>
     /\ arr[i] \in Rng(adm)
     /\ \E a, b \in DOMAIN adm : a < b /\ adm[a] = arr[i] /\ adm[b] = arr[j]

Do(e) ==
  \E r \in Step(c, s, e) :
    LET s1 == r.s
        new == New(r)
        arr == IF e.op = "conn" /\ r.rc = "ok" THEN Append(h.arr, e.s) ELSE h.arr
        \* several at once: in the order of their arrival (they look the same to everybody)
        adm == h.adm \o SelectSeq(arr, LAMBDA x : x \in new)
        st == [x \in X |->
                 IF x \in new THEN "live"
                 ELSE IF x \in Refused(r) \/ x \in Ended(r) \/ (e.op \in {"quit", "close"} /\ e.s = x) THEN
                      (IF e.op = "close" /\ h.st[x] = "waits" THEN "lost" ELSE "over")
                 ELSE IF e.op = "conn" /\ e.s = x THEN (IF r.rc = "ok" THEN "waits" ELSE "over")
                 ELSE h.st[x]]
        lost == {x \in X : st[x] \in {"lost", "over"} /\ x \notin Rng(adm)}
        lim == s1.max
        told == h.told \/ e.op = "term"
    IN /\ s' = s1
       /\ c' = c
       /\ h' = [h EXCEPT !.st = st, !.arr = arr, !.adm = adm, !.told = told,
                         !.rmx = IF e.op = "hup" THEN e.new.rmx ELSE @,
                         !.hups = IF e.op = "hup" THEN @ + 1 ELSE @,
                         !.bad = @
                \cup Flag(new = {} \/ lim = 0 \/ Cardinality({x \in X : st[x] = "live"}) <= lim, "D02 more than the limit")
                \cup Flag(InOrder(arr, lost, adm), "D02 out of turn")
                \cup Flag(e.op # "conn" \/ (r.rc = "refused") = (~s.up \/ h.told), "D01 accepted while leaving, or refused before")
                \cup Flag(Ended(r) \subseteq (IF e.op \in {"quit", "close"} THEN {e.s} ELSE {}), "D01 a session ended by the manager")
                \cup Flag(new # {} => ~told, "D01 a session begun while leaving")
                \cup Flag(\A x \in X : st[x] = "live" => s1.up, "D01 gone before the last session")
                \cup Flag(s1.up /\ told => \E x \in X : st[x] = "live", "D01 does not leave")
                \cup Flag(\A x \in X : told => st[x] # "waits", "D01 waits for nobody")
                \cup Flag((s.up /\ ~s1.up) => told, "D01 leaves by itself")
                \cup Flag((s.up /\ ~s1.up) => s1.pid = "none", "D03 the pid file stays")
                \cup Flag((s.up /\ ~s1.up /\ c.unix) => s1.sock = (IF h.rmx THEN "none" ELSE "sock"), "D03 the socket")
                \cup Flag((~s.up /\ ~s1.up) => s1.sock = s.sock /\ s1.pid = s.pid, "D03 touched without having started")
                \cup Flag(s1.up /\ c.unix => s1.sock = "sock", "D03 no socket")]

Next ==
  \/ ~s.was /\ Do([op |-> "start"])
  \/ s.was /\ \E x \in X : h.st[x] = "none" /\ (\A y \in X : y < x => h.st[y] # "none") /\ Do([op |-> "conn", s |-> x])
  \/ \E x \in DOMAIN s.live : s.live[x] <= MaxCmd /\ Do([op |-> "cmd", s |-> x])
  \/ \E x \in DOMAIN s.live : Do([op |-> "quit", s |-> x])
  \/ \E x \in X : h.st[x] \in {"live", "waits"} /\ Do([op |-> "close", s |-> x])
  \/ s.left > 0 /\ Do([op |-> "adv", d |-> 1])
  \/ s.up /\ ~s.quit /\ h.hups < MaxHup
     /\ \E m \in Maxs, r \in BOOLEAN : Do([op |-> "hup", new |-> [max |-> m, susp |-> s.susp, rmx |-> r]])
  \/ s.up /\ ~s.quit /\ Do([op |-> "term"])

Wait == s.left > 0 /\ Do([op |-> "adv", d |-> 1])
End(x) == x \in DOMAIN s.live /\ Do([op |-> "quit", s |-> x])
Spec == Init /\ [][Next]_vars /\ WF_vars(Wait) /\ \A x \in X : WF_vars(End(x))

Sound == h.bad = {} /\ Sane(s)
(* D02: who waits is served, unless it gives up or the manager leaves      *)
Served == \A x \in X : (h.st[x] = "waits") ~> (h.st[x] # "waits")
(* D01: told to leave, it is gone once every MTA has said what it had to   *)
Leaves == h.told ~> ~s.up
Brief == [live |-> DOMAIN s.live, queue |-> s.queue, left |-> s.left, up |-> s.up, h |-> h]
=============================================================================
