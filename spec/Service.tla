------------------------------ MODULE Service ------------------------------
(***************************************************************************)
(* The manager as a service of a host: when it listens, how many MTA       *)
(* connections it serves at once, how it leaves, which files it leaves     *)
(* behind.  Every session is the same script here (what a session does is  *)
(* the business of Session.tla); its one milter answers at once.           *)
(*                                                                         *)
(* Step(c, s, e) is the set of outcomes [s, o] of one stimulus e:          *)
(*   start  the process is started                                         *)
(*   conn   an MTA connects and begins session e.s                         *)
(*   cmd    the MTA sends the next command of the script                   *)
(*   quit   the MTA ends the session     close  it closes the connection   *)
(*   adv    e.d seconds pass             hup    reload (e.new: settings)   *)
(*   term   SIGTERM or SIGINT            after  nothing (the last look)    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Script == <<"neg", "connect", "helo", "mail", "rcpt", "data", "header", "eoh", "body", "eom">>
\* one message after the other
Kind(k) == IF k <= Len(Script) THEN Script[k] ELSE Script[4 + ((k - 11) % 7)]

Rng(q) == {q[i] : i \in DOMAIN q}
Less(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

(* live: sessions being served |-> commands answered                       *)
(* queue: connections waiting in the order of their arrival                *)
(* lost: those of them the MTA has given up                                *)
(* ghost: sessions that were over as soon as they began and still count    *)
(* left: seconds until the number of sessions is looked at again, 0 when   *)
(*       nobody has to wait                                                *)
(* rmx etc.: settings as of the last time the configuration was loaded     *)
Down == [up |-> FALSE, quit |-> FALSE, was |-> FALSE, live |-> <<>>, queue |-> <<>>, lost |-> {}, ghost |-> {}, left |-> 0,
         sock |-> "none", pid |-> "none", max |-> 0, susp |-> 0, rmx |-> FALSE]

Init0(c) == [Down EXCEPT !.sock = IF c.pre = "none" THEN "none" ELSE IF c.pre = "sock" THEN "old" ELSE "file",
                         !.pid = IF c.prepid THEN "other" ELSE "none"]

Full(s) == s.max > 0 /\ Cardinality(DOMAIN s.live) + Cardinality(s.ghost) >= s.max

(* Serve who waits, in order, as long as there is room. The result is a    *)
(* set: a session whose MTA has gone ends at once, before or after the     *)
(* manager looks at the next one.                                          *)
RECURSIVE Pump(_, _, _)
Pump(s, m, k) ==
  IF s.left > 0 THEN {[s |-> [s EXCEPT !.ghost = {}], m |-> m, k |-> k]}
  ELSE LET s0 == [s EXCEPT !.ghost = {}]
           Try(z) ==
             IF z.queue = <<>> THEN {[s |-> [z EXCEPT !.ghost = {}], m |-> m, k |-> k]}
             ELSE IF Full(z) THEN {[s |-> [z EXCEPT !.left = z.susp, !.ghost = {}], m |-> m, k |-> k]}
             ELSE LET x == Head(z.queue)
                  IN IF x \in z.lost
                     THEN Pump([z EXCEPT !.queue = Tail(@), !.lost = @ \ {x}, !.ghost = @ \cup {x}], m, k)
                     ELSE Pump([z EXCEPT !.queue = Tail(@), !.live = (x :> 1) @@ @],
                               m \cup {<<x, <<"neg">>>>}, k \cup {<<x, <<"neg">>>>})
       IN Try(s) \cup (IF s.ghost # {} THEN Try(s0) ELSE {})

(* the manager leaves as soon as nobody is served after it was told to     *)
Exit(s) == IF s.up /\ s.quit /\ DOMAIN s.live = {}
           THEN [s EXCEPT !.up = FALSE, !.pid = IF @ = "own" THEN "none" ELSE @,
                          !.sock = IF s.rmx /\ @ = "sock" THEN "none" ELSE @]
           ELSE s

Out(s, m, k, rc) == {[s |-> Exit(s), m |-> m, k |-> k, rc |-> rc]}
Pumped(s) == UNION {Out(r.s, r.m, r.k, "") : r \in Pump(s, {}, {})}

Start(c, s) ==
  IF c.unix /\ s.sock # "none" /\ ~c.rmc
  THEN Out([s EXCEPT !.was = TRUE], {}, {}, "")          \* nothing is touched
  ELSE Out([s EXCEPT !.up = TRUE, !.was = TRUE, !.sock = IF c.unix THEN "sock" ELSE @, !.pid = IF c.pid THEN "own" ELSE @,
                     !.max = c.max, !.susp = c.susp, !.rmx = c.rmx], {}, {}, "")

Leave(s, x, m) == Out([s EXCEPT !.live = Less(@, x)], m, {<<x, <<"quit", "eof">>>>}, "")

Step(c, s, e) ==
  CASE e.op = "start" -> Start(c, s)
    [] e.op = "conn" ->
         IF ~s.up \/ s.quit THEN Out(s, {}, {}, "refused")
         ELSE UNION {Out(r.s, r.m, r.k, "ok") : r \in Pump([s EXCEPT !.queue = Append(@, e.s)], {}, {})}
    [] e.op = "cmd" -> Out([s EXCEPT !.live[e.s] = @ + 1], {<<e.s, <<"continue">>>>}, {<<e.s, <<Kind(s.live[e.s] + 1)>>>>}, "")
    [] e.op = "quit" -> Leave(s, e.s, {<<e.s, <<"eof">>>>})
    [] e.op = "close" -> IF e.s \in DOMAIN s.live THEN Leave(s, e.s, {})
                         ELSE Out([s EXCEPT !.lost = @ \cup {e.s}], {}, {}, "")
    [] e.op = "adv" -> IF s.left = 0 THEN Out(s, {}, {}, "")
                       ELSE IF e.d < s.left THEN Out([s EXCEPT !.left = @ - e.d], {}, {}, "")
                       ELSE Pumped([s EXCEPT !.left = 0])
    [] e.op = "hup" -> IF s.up THEN Out([s EXCEPT !.max = e.new.max, !.susp = e.new.susp, !.rmx = e.new.rmx], {}, {}, "")
                       ELSE Out(s, {}, {}, "")
    [] e.op = "term" -> Out([s EXCEPT !.quit = TRUE, !.queue = <<>>, !.lost = {}, !.left = 0],
                            {<<x, <<"eof">>>> : x \in Rng(s.queue) \ s.lost}, {}, "")
    [] e.op = "after" -> Out(s, {}, {}, "")

-----------------------------------------------------------------------------
(* What has to hold in every state, whatever Step says.                    *)
Sane(s) ==
  /\ s.queue # <<>> => s.left > 0                   \* nobody waits without a date
  /\ s.quit => s.queue = <<>>                       \* nobody waits for a manager that leaves
  /\ (s.quit /\ DOMAIN s.live = {}) => ~s.up        \* it does leave
  /\ (s.was /\ ~s.up) => DOMAIN s.live = {}         \* nobody is left alone
  /\ s.lost \subseteq Rng(s.queue)
  /\ s.up => s.sock # "old"
=============================================================================
