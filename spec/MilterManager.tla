--------------------------- MODULE MilterManager ---------------------------
(***************************************************************************)
(* One session of the manager, closed with an environment: an MTA that     *)
(* follows the protocol and milters that answer, change, fail, leave and   *)
(* speak out of turn as they like.  What the manager does is Session.Step; *)
(* what must never happen is written here a second time, from what the     *)
(* peers can see (h) and without Step, and checked by TLC on every         *)
(* reachable state.  The transitions of this module are also the           *)
(* behaviours that are replayed into the real daemon (tools/tours.py).     *)
(***************************************************************************)
EXTENDS Session, TLCExt, Json

CONSTANTS N,            \* milters
          Evals,        \* which of them are evaluated: a set of sets
          Fbs,          \* fallback statuses: a set of sequences
          Ups,          \* who can be reached at first: a set of sequences
          Offers,       \* what the MTA offers: a set of sets of steps
          KSteps,       \* what milters ask for: a set of sets of steps
          KActs,        \* a set of sets of actions
          Verd,         \* milters' answers: a set of pairs <<command, answer>>
          Changes,      \* their changes at the end of the message: packets
          MaxMod, MaxMsg, MaxRcpt, MaxHdr, MaxBody,
          MaxFault,     \* milters fail this often (closing, silence, illegal answers)
          MaxCut,       \* the MTA gives up a message or the session early this often
          Kinds,        \* which faults and cuts
          Watch         \* keep h (for the properties) or not (for the behaviours)

VARIABLES s, env, h, ev
vars == <<s, env, h, ev>>

K == 1..N
NoOut == [mta |-> <<>>, kids |-> [i \in K |-> <<>>]]
Text5 == <<"550 5.7.1 no">>
Text4 == <<"451 4.7.1 later">>
AllActs == {"addhdrs", "chgbody", "addrcpt", "delrcpt", "chghdrs", "quarantine", "chgfrom", "addrcptpar", "setsymlist"}
Commands == Parallel \cup Content

Cfg(e, f, u) ==
  [n |-> N, eval |-> [i \in K |-> i \in e], fb |-> f, gfb |-> "accept", chunk |-> 1000,
   rto |-> 10, eto |-> 300, retry |-> 5, conds |-> [i \in K |-> <<>>],
   lc |-> [x \in {"-"} |-> "-"],
   num |-> [x \in {"0", "1", "2", "6"} |-> CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] OTHER -> 6],
   up |-> u]

(* at: the last command that went well ("idle": greeted and no message,     *)
(* "dead": nothing but to leave); rep: the last reply                       *)
Env0 == [at |-> "new", rep |-> "", nm |-> 0, nr |-> 0, ok |-> 0, nh |-> 0, nb |-> 0,
         mods |-> 0, faults |-> 0, cuts |-> 0]

(* owe: replies owed to the MTA; con: what milters said to the outstanding  *)
(* command; open: milters that know of a message that is not over for them; *)
(* done: milters whose session is over; at: the last command they got; hd,  *)
(* bd: the message as they saw it; mhd, mbd: as the MTA sent it; skip: they *)
(* want no more body; mod: changes somebody was entitled to make; new: the  *)
(* body somebody put in its place                                           *)
H0 == [owe |-> 0, con |-> {}, open |-> {}, done |-> {}, at |-> [i \in K |-> "neg"],
       hd |-> [i \in K |-> <<>>], bd |-> [i \in K |-> <<>>], mhd |-> <<>>, mbd |-> <<>>,
       skip |-> {}, mod |-> {}, new |-> <<>>, quits |-> [i \in K |-> 0], bad |-> {}]

Init == /\ \E e \in Evals, f \in Fbs, u \in Ups : s = [Init0(Cfg(e, f, u)) EXCEPT !.out = NoOut]
        /\ env = Env0 /\ h = H0 /\ ev = [t |-> "init"]

-----------------------------------------------------------------------------
Finals == Verdicts \cup {"replycode", "skip", "NEG"}
Verdict(p) == IF p.k = "replycode" THEN TextClass(p) ELSE p.k
Replies(s1) == SelectSeq(s1.out.mta, LAMBDA p : p.k \in Finals)
Cmd(s0, e) == IF e.t = "mta" THEN e.p.k ELSE s0.cmd
Waives(s0, k) == k \in DOMAIN NrStep /\ NrStep[k] \in s0.annsteps
Severity == <<"discard", "reject", "tempfail", "continue", "accept">>
Severe(S) == IF S = {} THEN "none" ELSE Severity[CHOOSE i \in 1..5 : Severity[i] \in S /\ \A j \in 1..(i-1) : Severity[j] \notin S]
Answers == Verdicts \cup {"replycode"}

(* what one milter says by e to the command it was asked about              *)
LegalExtra(k, p) == (k = "eom" /\ p.k \in Mods \cup {"progress"}) \/ (k = "body" /\ p.k = "skip")
Fails(s0, e) ==
  {i \in K : /\ s0.kids[i].st \in {"up", "nego", "retry"}
             /\ \/ e.t = "kidclose" /\ e.i = i
                \/ e.t = "tick" /\ s0.kids[i].aw # "" /\ s0.kids[i].age + e.d >= Limit(s0, i)
                \/ e.t = "kid" /\ e.i = i /\ s0.kids[i].aw = ""
                \/ e.t = "kid" /\ e.i = i /\ s0.kids[i].aw \in Commands /\ e.p.k \notin Answers /\ ~LegalExtra(s0.kids[i].aw, e.p)}
Says(s0, e) ==
  {[v |-> IF s0.cfg.eval[i] THEN "accept" ELSE s0.cfg.fb[i], txt |-> <<>>] : i \in {j \in Fails(s0, e) : s0.kids[j].aw \in Commands}}
  \cup (IF e.t = "kid" /\ s0.kids[e.i].aw \in Commands /\ e.p.k \in Answers
        THEN LET v == Verdict(e.p)
             IN IF s0.cfg.eval[e.i] /\ v \in Negative
                THEN {[v |-> IF s0.kids[e.i].aw = "rcpt" /\ v # "discard" THEN "continue" ELSE "accept", txt |-> <<>>]}
                ELSE {[v |-> v, txt |-> IF e.p.k = "replycode" THEN e.p.a ELSE <<>>]}
        ELSE {})

(* milters whose part in the message, or in the session, ends by what they say *)
Leaves1(s0, e) ==
  Fails(s0, e) \cup
  (IF e.t = "kid" /\ e.p.k \in Answers
   THEN LET k == s0.kids[e.i].aw
            v == Verdict(e.p)
        IN IF k = "eom" \/ (k \in MsgStages /\ v # "continue" /\ ~(v \in {"reject", "tempfail"} /\ (k = "rcpt" \/ (k = "mail" /\ ~s0.cfg.eval[e.i])))) THEN {e.i} ELSE {}
   ELSE {})
Ends1(s0, e) ==
  Fails(s0, e) \cup
  (IF e.t = "kid" /\ e.p.k \in Answers /\ s0.kids[e.i].aw \in {"connect", "helo", "unknown"} /\ Verdict(e.p) # "continue"
   THEN {e.i} ELSE {})

Place == [mail |-> 1, rcpt |-> 2, data |-> 3, header |-> 4, eoh |-> 5, body |-> 6, eom |-> 7]
InOrder(a, k) ==
  IF k \in {"helo", "mail", "unknown"} THEN TRUE
  ELSE IF k = "connect" THEN a = "neg"
  ELSE /\ a \in DOMAIN Place
       /\ Place[a] < Place[k] \/ (a = k /\ k \in {"rcpt", "header", "body"})

Whole(s1, g, i) ==
  LET st == s1.kids[i].steps
      names == {x[2] : x \in g.mod}
  IN /\ ("nohdrs" \in st \/ names \cap {"addhdr", "inshdr", "chghdr"} # {} \/ g.hd[i] = g.mhd)
     /\ ("nobody" \in st \/ i \in g.skip \/ g.bd[i] = (IF "replbody" \in names THEN g.new ELSE g.mbd))

(* one packet that milter i gets *)
Gets(s0, s1, i, g, p) ==
  LET flag(c, n) == IF c THEN {} ELSE {n}
      g1 == [g EXCEPT !.at[i] = IF p.k = "unknown" THEN @ ELSE p.k]
  IN CASE p.k \in {"neg", "macro"} -> g
       [] p.k \in {"connect", "helo", "unknown"} ->
            [g1 EXCEPT !.bad = @ \cup flag(i \notin g.done /\ InOrder(g.at[i], p.k), "M06 after the end")]
       [] p.k = "mail" ->
            [g1 EXCEPT !.bad = @ \cup flag(i \notin g.open /\ i \notin g.done, "M07 a message within a message"),
                       !.open = @ \cup {i}, !.hd[i] = <<>>, !.bd[i] = <<>>, !.skip = @ \ {i}]
       [] p.k \in MsgStages ->
            LET g2 == [g1 EXCEPT !.bad = @ \cup flag(i \in g.open /\ i \notin g.done, "M06 a milter that had left")
                                           \cup flag(InOrder(g.at[i], p.k), "M06 out of order"),
                                 !.hd[i] = IF p.k = "header" THEN Append(@, p.a) ELSE @,
                                 !.bd[i] = IF p.k \in {"body", "eom"} THEN @ \o p.a ELSE @]
            IN IF p.k = "eom" THEN [g2 EXCEPT !.bad = @ \cup flag(Whole(s1, g2, i), "M08 not the message")] ELSE g2
       [] p.k = "abort" -> [g1 EXCEPT !.bad = @ \cup flag(i \in g.open \/ g.at[i] \in MsgStages, "M07 abort of nothing"), !.open = @ \ {i}]
       [] p.k = "quit" -> [g EXCEPT !.quits[i] = @ + 1, !.open = @ \ {i}, !.done = @ \cup {i}]
       [] OTHER -> [g EXCEPT !.bad = @ \cup {"unknown packet"}]

GetsAll(s0, s1, g) ==
  FoldLeft(LAMBDA gg, i : FoldLeft(LAMBDA x, p : Gets(s0, s1, i, x, p), gg, s1.out.kids[i]), g, [i \in K |-> i])

HeaderMods == {"addhdr", "inshdr", "chghdr"}
RcptMods == {"addrcpt", "addrcptpar", "delrcpt"}

Observe(s0, e, s1) ==
  LET k == Cmd(s0, e)
      rs == Replies(s1)
      isCmd == e.t = "mta" /\ k \in Commands \cup {"neg"}
      ending == e.t = "mtaclose" \/ (e.t = "mta" /\ k = "quit")
      con == (IF isCmd THEN {} ELSE h.con) \cup Says(s0, e)
      owe == IF ending \/ (e.t = "mta" /\ k = "abort") THEN 0
             ELSE h.owe + (IF isCmd /\ ~Waives(s0, k) THEN 1 ELSE 0) - Len(rs)
      legal == /\ e.t = "kid" /\ s0.kids[e.i].aw = "eom" /\ e.p.k \in Mods
               /\ ~s0.cfg.eval[e.i] /\ ActionOf[e.p.k] \in s0.kids[e.i].acts
      begin == e.t = "mta" /\ k = "mail"
      g0 == [h EXCEPT !.owe = owe, !.con = con,
                      !.open = @ \ Leaves1(s0, e), !.done = @ \cup Ends1(s0, e),
                      !.skip = IF e.t = "kid" /\ e.p.k = "skip" THEN @ \cup {e.i} ELSE @,
                      !.mhd = IF begin THEN <<>> ELSE IF e.t = "mta" /\ k = "header" THEN Append(@, e.p.a) ELSE @,
                      !.mbd = IF begin THEN <<>> ELSE IF e.t = "mta" /\ k \in {"body", "eom"} THEN @ \o e.p.a ELSE @,
                      !.mod = IF begin THEN {} ELSE IF legal THEN @ \cup {<<e.i, e.p.k>>} ELSE @,
                      !.new = IF legal /\ e.p.k = "replbody"
                              THEN (IF <<e.i, "replbody">> \in h.mod THEN @ \o e.p.a ELSE e.p.a) ELSE @]
      g == GetsAll(s0, s1, g0)
      v == IF rs = <<>> THEN "" ELSE Verdict(rs[1])
      top == Severe({c.v : c \in con})
      texts == {c.txt : c \in {x \in con : x.v = v}} \ {<<>>}
      asked == \E i \in K : s1.kids[i].aw # "" \/ s1.kids[i].st \in {"nego", "retry"}
      passed == {p.k : p \in {s1.out.mta[j] : j \in DOMAIN s1.out.mta}}
      names == {x[2] : x \in g.mod}
      flag(c, n) == IF c THEN {} ELSE {n}
  IN [g EXCEPT !.bad = @
       \cup flag(owe \in {0, 1} /\ (owe = 1 => asked), "M02 replies owed")
       \cup flag(Len(rs) > 1 => FALSE, "M02 two replies")
       \cup flag((k \in Parallel /\ rs # <<>> /\ con # {} /\ v # "NEG") =>
                 (v = top \/ ({v, top} \subseteq {"accept", "continue"} /\ v = "continue")), "M01 not the most severe")
       \cup flag((rs # <<>> /\ rs[1].k = "replycode") => rs[1].a \in texts, "M03 not a text of the winning verdict")
       \cup flag((rs # <<>> /\ v \in {"reject", "tempfail"} /\ texts # {}) => rs[1].k = "replycode", "M03 text lost")
       \cup flag((rs # <<>> /\ v \in Negative) => v \in {c.v : c \in con}, "M04 M05 nobody said so")
       \cup flag((k \in Content /\ ~Waives(s0, k) /\ \E c \in Says(s0, e) : c.v \in Negative) => (rs # <<>> /\ v \in Negative), "M05 M07 refusal lost")
       \cup flag((passed \cap RcptMods # {}) => legal /\ passed \cap RcptMods = {e.p.k}, "M17 recipients")
       \cup flag((s1.fin.on /\ s1.fin.hchg) => names \cap HeaderMods # {}, "M17 headers")
       \cup flag(s1.fin.on => (s1.fin.repl = ("replbody" \in names)), "M09 M17 body")
       \cup flag((s1.fin.on /\ s1.fin.repl) => s1.fin.body = g.new, "M09 body")
       \cup flag(s1.fin.on => ((s1.fin.from # <<>>) = ("chgfrom" \in names)), "M09 M17 sender")
       \cup flag(s1.fin.on => ((s1.fin.quar # <<>>) = ("quarantine" \in names)), "M09 M17 quarantine")
       \cup flag(\A i \in K : g.quits[i] <= 1, "M12 two quits")
       \cup flag(ending => \A i \in K : s0.kids[i].st = "up" => g.quits[i] = 1, "M12 no quit")]

-----------------------------------------------------------------------------
(* The MTA's view *)

Good(v) == v \in {"continue", "skip", "NEG"}
After(s0, e, s1) ==
  LET k == Cmd(s0, e)
      rs == Replies(s1)
      got == rs # <<>> \/ (e.t = "mta" /\ k \in Commands /\ s1.cmd = "")
      v == IF rs = <<>> THEN "continue" ELSE Verdict(rs[1])
      n1 == [env EXCEPT !.rep = v, !.at = IF k = "helo" THEN "idle" ELSE IF k = "unknown" THEN @ ELSE k]
      over == [env EXCEPT !.rep = v, !.at = "idle", !.nm = @ + 1, !.nr = 0, !.ok = 0, !.nh = 0, !.nb = 0, !.mods = 0]
  IN IF e.t = "mtaclose" \/ (e.t = "mta" /\ k = "quit") THEN [env EXCEPT !.at = "end"]
     ELSE IF e.t = "mta" /\ k = "abort" THEN over
     ELSE IF ~got THEN env
     ELSE CASE k \in {"neg", "connect", "helo"} -> IF Good(v) THEN n1 ELSE [n1 EXCEPT !.at = "dead"]
            [] k = "unknown" -> IF Good(v) \/ v \in {"reject", "tempfail"} THEN n1 ELSE [n1 EXCEPT !.at = "dead"]
            [] k = "mail" -> IF Good(v) THEN [n1 EXCEPT !.nr = 0, !.ok = 0, !.nh = 0, !.nb = 0, !.mods = 0] ELSE over
            [] k = "rcpt" -> IF Good(v) THEN [n1 EXCEPT !.nr = @ + 1, !.ok = @ + 1]
                             ELSE IF v \in {"reject", "tempfail"} THEN [n1 EXCEPT !.nr = @ + 1] ELSE over
            [] k = "header" -> IF Good(v) THEN [n1 EXCEPT !.nh = @ + 1] ELSE over
            [] k = "body" -> IF Good(v) THEN [n1 EXCEPT !.nb = IF v = "skip" THEN MaxBody ELSE @ + 1] ELSE over
            [] k = "eom" -> over
            [] OTHER -> IF Good(v) THEN n1 ELSE over

Idle(s1, n1) == n1.at = "idle" /\ s1.cmd = ""

Do(e, f, c) ==
  LET s1 == Step(s, e)
      n1 == [After(s, e, s1) EXCEPT !.faults = @ + f, !.cuts = @ + c,
                                    !.mods = IF e.t = "kid" /\ e.p.k \in Mods THEN @ + 1 ELSE @]
      g == Observe(s, e, s1)
  IN /\ s' = [s1 EXCEPT !.out = NoOut, !.fin = [on |-> FALSE]]
     /\ env' = n1
     /\ h' = IF ~Watch THEN h
             ELSE IF Idle(s1, n1) /\ \E i \in g.open : s1.kids[i].st = "up"
             THEN [g EXCEPT !.bad = @ \cup {"M07 M11 a milter still has the message"}] ELSE g
     /\ ev' = e

Mta(k, a) == Do([t |-> "mta", p |-> Pk(k, a)], 0, 0)
MtaCut(k) == Do([t |-> "mta", p |-> Pk(k, <<>>)], 0, 1)
Tok(n) == ToString(1000 + n)
Subject(n) == <<"Subject", "v" \o ToString(n)>>

MtaActs ==
  /\ s.cmd = "" /\ s.ph # "end"
  /\ \/ env.at = "new" /\ \E o \in Offers :
          Do([t |-> "mta", p |-> PkS("neg", <<>>, {<<"v", "6">>} \cup {<<"a", x>> : x \in AllActs} \cup {<<"p", x>> : x \in o})], 0, 0)
     \/ env.at = "neg" /\ Mta("connect", <<"localhost", "4", "2525", "192.0.2.1">>)
     \/ env.at = "connect" /\ Mta("helo", <<"h1">>)
     \/ env.at = "idle" /\ env.nm < MaxMsg /\ Mta("mail", <<"<f" \o ToString(env.nm) \o "@x>">>)
     \/ env.at \in {"mail", "rcpt"} /\ env.nr < MaxRcpt /\ Mta("rcpt", <<"<t" \o ToString(env.nm * 10 + env.nr) \o "@x>">>)
     \/ env.at = "rcpt" /\ env.ok > 0 /\ Mta("data", <<>>)
     \/ env.at \in {"data", "header"} /\ env.nh < MaxHdr /\ Mta("header", Subject(env.nh))
     \/ env.at \in {"data", "header"} /\ Mta("eoh", <<>>)
     \/ env.at \in {"eoh", "body"} /\ env.nb < MaxBody /\ Mta("body", <<Tok(env.nm * 10 + env.nb)>>)
     \/ env.at \in {"eoh", "body"} /\ \E c \in (IF "chunk" \in Kinds THEN {<<>>, <<"t099">>} ELSE {<<>>}) : Mta("eom", c)
     \/ env.at = "rcpt" /\ env.ok = 0 /\ env.nr = MaxRcpt /\ Mta("abort", <<>>)
     \/ env.at = "dead" /\ Mta("quit", <<>>)
     \/ env.at = "idle" /\ env.nm = MaxMsg /\ Mta("quit", <<>>)
     \/ "unknown" \in Kinds /\ env.at \in {"connect", "idle", "mail"} /\ env.cuts < MaxCut /\ Do([t |-> "mta", p |-> Pk("unknown", <<"BOGUS">>)], 0, 1)
     \/ "abort" \in Kinds /\ env.cuts < MaxCut /\ env.at \in MsgStages /\ MtaCut("abort")
     \/ "close" \in Kinds /\ env.cuts < MaxCut /\ env.at # "new" /\ (MtaCut("quit") \/ Do([t |-> "mtaclose"], 0, 1))

MtaCuts ==          \* without waiting for the reply it is owed
  /\ s.cmd # "" /\ env.cuts < MaxCut
  /\ \/ "abortmid" \in Kinds /\ s.cmd \in MsgStages /\ MtaCut("abort")
     \/ "close" \in Kinds /\ (MtaCut("quit") \/ Do([t |-> "mtaclose"], 0, 1))

Packet(v) == CASE v = "rc5" -> Pk("replycode", Text5) [] v = "rc4" -> Pk("replycode", Text4) [] OTHER -> Pk(v, <<>>)

KidActs(i) ==
  LET kid == s.kids[i]
      fault == env.faults < MaxFault
  IN \/ /\ kid.st = "nego"
        /\ \E st \in KSteps, ac \in KActs :
             Do([t |-> "kid", i |-> i, p |-> PkS("neg", <<>>, {<<"v", "6">>} \cup {<<"a", x>> : x \in ac}
                                                     \cup {<<"p", x>> : x \in st \cap s.steps})], 0, 0)
     \/ /\ kid.st = "up" /\ kid.aw # ""
        /\ \/ \E x \in Verd : x[1] = kid.aw /\ (x[2] = "skip" => "skip" \in kid.steps)
                              /\ Do([t |-> "kid", i |-> i, p |-> Packet(x[2])], 0, 0)
           \/ kid.aw = "eom" /\ env.mods < MaxMod /\ \E p \in Changes : Do([t |-> "kid", i |-> i, p |-> p], 0, 0)
           \/ "bad" \in Kinds /\ fault /\ Do([t |-> "kid", i |-> i, p |-> Pk("connfail", <<>>)], 1, 0)
     \/ "listen" \in Kinds /\ kid.st = "retry" /\ ~s.up[i] /\ Do([t |-> "listen", i |-> i, on |-> TRUE], 0, 0)
     \/ "kclose" \in Kinds /\ fault /\ kid.st \in {"up", "nego"} /\ Do([t |-> "kidclose", i |-> i], 1, 0)
     \/ "unsol" \in Kinds /\ fault /\ kid.st = "up" /\ kid.aw = "" /\ Do([t |-> "kid", i |-> i, p |-> Pk("continue", <<>>)], 1, 0)

Time ==
  /\ "tick" \in Kinds /\ env.faults < MaxFault
  /\ LET w == {s.kids[i].aw : i \in {j \in K : s.kids[j].st \in {"up", "nego"}}} \ {""}
     IN w # {} /\ Do([t |-> "tick", d |-> IF w = {"eom"} THEN 300 ELSE 10], 1, 0)
Wait == (\E i \in K : s.kids[i].st = "retry") /\ \E d \in {3, 5} : Do([t |-> "tick", d |-> d], 0, 0)

Next == s.ph # "end" /\ (MtaActs \/ MtaCuts \/ (\E i \in K : KidActs(i)) \/ Time \/ Wait)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
View == <<s, env, h>>
Sound == h.bad = {}
(* M02: nobody waits for ever - as long as the session lasts somebody can act *)
Alive == s.ph # "end" => ENABLED Next

Brief == [ev |-> ev, bad |-> h.bad, at |-> env.at, rep |-> env.rep, con |-> h.con, open |-> h.open, st |-> [i \in K |-> <<s.kids[i].st, s.kids[i].aw>>]]

Stimuli == <<s, env>>
Edge == PrintT("@@E " \o ToString(TLCFP(<<s, env>>)) \o " " \o ToString(TLCFP(<<s', env'>>)) \o " "
               \o ToJson([e |-> ev', new |-> ev.t = "init", end |-> s'.ph = "end", at |-> env'.at, ev |-> s.cfg.eval, fb |-> s.cfg.fb, up |-> s.cfg.up]))
=============================================================================
