------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* One session of a milter written with milter-manager's client library,   *)
(* either through MilterClientContext signals (api "client") or through    *)
(* the libmilter-compatible interface (api "smfi").                        *)
(*                                                                         *)
(* Step(s, e) is the whole effect of one stimulus e:                       *)
(*   mta   a packet from the MTA                                           *)
(*   call  the running callback calls the library                          *)
(*   ret   the running (or postponed) callback returns a status            *)
(*   tick  time passes      close  the MTA closes                          *)
(* s.out.mta: packets the MTA gets; s.out.ctl: callbacks started (cb) and  *)
(* results of calls (res).  Accepted changes wait in s.buf: the library    *)
(* may send any prefix of them at any time and must have sent all of them  *)
(* before the verdict.  s.pg counts the progress packets that may still be *)
(* on their way; they too must leave before the verdict.  s.late holds     *)
(* packets that could not leave because the next callback already blocks.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NULL == "<NULL>"

Pk(k, a)    == [k |-> k, a |-> a, s |-> {}]
Cb(n, a)    == [k |-> "cb", n |-> n, a |-> a]
Res(ok, a)  == [k |-> "res", n |-> ok, a |-> a]

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(x, i) == SubSeq(x, i, i)
AllDigits(x) == \A i \in 1..Len(x) : Ch(x, i) \in Digit

RECURSIVE SplitOn(_, _)
SplitOn(x, c) ==
  LET R == FoldLeft(LAMBDA acc, i : IF Ch(x, i) = c THEN <<acc[1] \o <<acc[2]>>, "">>
                                    ELSE <<acc[1], acc[2] \o Ch(x, i)>>,
                    <<<<>>, "">>, [i \in 1..Len(x) |-> i])
  IN R[1] \o <<R[2]>>

----------------------------------------------------------------------------
(* SMTP reply codes (C03) *)
CodeOk(c) == c # NULL /\ Len(c) = 3 /\ AllDigits(c) /\ Ch(c, 1) \in {"4", "5"}
Part(x) == Len(x) \in 1..3 /\ AllDigits(x)
ExtOk(c, x) ==
  x = NULL \/ LET f == SplitOn(x, ".")
              IN Len(f) = 3 /\ f[1] = Ch(c, 1) /\ Part(f[2]) /\ Part(f[3])

StripCR(l) == IF Len(l) > 0 /\ Ch(l, Len(l)) = "\r" THEN SubSeq(l, 1, Len(l) - 1) ELSE l
FmtLine(r, l) == r.code \o (IF r.ext = NULL THEN "" ELSE " " \o r.ext) \o (IF l = "" THEN "" ELSE " " \o StripCR(l))
Fmt(r) ==
  LET ls == IF r.msg = NULL THEN <<"">> ELSE SplitOn(r.msg, "\n")
  IN FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE "\r\n") \o FmtLine(r, ls[i]), "", [i \in 1..Len(ls) |-> i])

NoReply == [code |-> "", ext |-> NULL, msg |-> NULL]

----------------------------------------------------------------------------
Actions == {"addhdrs", "chgbody", "addrcpt", "delrcpt", "chghdrs", "quarantine", "chgfrom", "addrcptpar", "setsymlist"}
MacroOrder == <<"connect", "helo", "mail", "rcpt", "data", "header", "eoh", "body", "eom">>
MsgStages == {"mail", "rcpt", "data", "header", "eoh", "body", "eom"}
Idx(k) == CHOOSE i \in 1..Len(MacroOrder) : MacroOrder[i] = k

Init0(cfg) ==
  [cfg |-> cfg, ph |-> "run",                       \* run / end
   pend |-> "", prog |-> FALSE, cmd |-> "",         \* callback running (postponed); MTA command it belongs to
   chunk |-> <<>>,                                  \* body carried by the end-of-message command
   msg |-> "no",                                    \* no / in / eom : message being processed
   offer |-> [v |-> "", a |-> {}, p |-> {}], opt |-> [a |-> {}, p |-> {}], symlist |-> {},
   macros |-> [k \in {MacroOrder[i] : i \in 1..Len(MacroOrder)} |-> {}], mctx |-> "eom",
   reply |-> NoReply, buf |-> <<>>, pg |-> 0, late |-> <<>>, quar |-> NULL, priv |-> NULL,
   q |-> <<>>, idle |-> 0, timer |-> FALSE, gone |-> FALSE,
   out |-> [mta |-> <<>>, ctl |-> <<>>, eof |-> FALSE]]

Has(s, n) == n \in s.cfg.cbs
ToMta(s, p) == [s EXCEPT !.out.mta = @ \o p]
ToCtl(s, c) == [s EXCEPT !.out.ctl = Append(@, c)]
Ask(s, n, a) == ToCtl([s EXCEPT !.pend = n], Cb(n, a))

----------------------------------------------------------------------------
(* answers (C01) *)
Coded(s, cls, plain) ==
  IF s.reply.code # "" /\ Ch(s.reply.code, 1) = cls THEN Pk("replycode", <<Fmt(s.reply)>>) ELSE Pk(plain, <<>>)

Verdict(s, st) ==
  CASE st = "reject"   -> <<Coded(s, "5", "reject")>>
    [] st = "tempfail" -> <<Coded(s, "4", "tempfail")>>
    [] st = "discard"  -> <<Pk("discard", <<>>)>>
    [] st = "accept"   -> <<Pk("accept", <<>>)>>
    [] st = "skip"     -> <<Pk("skip", <<>>)>>
    [] st = "noreply"  -> <<>>
    [] OTHER           -> <<Pk("continue", <<>>)>>

Opts(s) == [k |-> "neg", a |-> <<>>,
            s |-> {<<"v", s.offer.v>>} \cup {<<"a", x>> : x \in s.opt.a} \cup {<<"p", x>> : x \in s.opt.p} \cup s.symlist]

RECURSIVE Deliver(_, _)

(* what was sent while a callback of a blocked filter was running comes next *)
Resume(s) ==
  IF s.q = <<>> \/ s.pend # "" \/ s.ph = "end" THEN s
  ELSE LET p == Head(s.q) IN Deliver([s EXCEPT !.q = Tail(@)], p)

(* nothing of an aborted message is left *)
Forget(s) == [s EXCEPT !.buf = <<>>, !.quar = NULL, !.reply = NoReply,
                       !.macros = [c \in DOMAIN @ |-> IF c \in MsgStages THEN {} ELSE @[c]]]

Respond(s0, st) ==
  LET s == [s0 EXCEPT !.pend = "", !.prog = FALSE]
      k == s.cmd
      done(x) == [x EXCEPT !.reply = NoReply]
      timed(x) == IF Len(x.out.mta) > Len(s0.out.mta) THEN [x EXCEPT !.timer = TRUE, !.idle = 0] ELSE x
  IN CASE k = "neg" ->
            Resume(timed(
              IF st = "reject" THEN ToMta(s, <<Pk("reject", <<>>)>>)
              ELSE ToMta(s, <<Opts(s)>>)))
       [] k = "abort" -> Resume(Forget(s))
       [] k = "eom" ->
            LET v == Verdict(s, st)
                quar == IF s.quar = NULL \/ v = <<>> THEN <<>> ELSE <<Pk("quarantine", <<s.quar>>)>>
            IN Resume(timed(done([ToMta(s, s.buf \o quar \o v) EXCEPT !.buf = <<>>, !.quar = NULL, !.msg = "no"])))
       [] OTHER -> Resume(timed(done(ToMta(s, Verdict(s, st)))))

(* a callback that is not set means continue *)
Call(s, n, a) == IF Has(s, n) THEN Ask(s, n, a) ELSE Respond(s, "unset")

Eom2(s) == Call(s, "eom", IF s.cfg.api = "client" THEN s.chunk ELSE <<>>)

Finish(s) == [ToCtl(s, Cb("close", <<>>)) EXCEPT !.ph = "end", !.pend = "", !.q = <<>>, !.out.eof = TRUE]

Body(a) == a     \* body contents are lists of tokens

Deliver(s0, p) ==
  LET k == p.k
      s == [s0 EXCEPT !.cmd = IF k = "macro" THEN @ ELSE k, !.timer = FALSE,
                      !.mctx = IF k \in {MacroOrder[i] : i \in 1..Len(MacroOrder)} THEN k ELSE @]
  IN CASE k = "macro"   -> Resume([s EXCEPT !.macros[p.a[1]] = p.s])
       [] k = "neg"     ->
            LET of == [v |-> (CHOOSE x \in p.s : x[1] = "v")[2],
                       a |-> {x[2] : x \in {y \in p.s : y[1] = "a"}},
                       p |-> {x[2] : x \in {y \in p.s : y[1] = "p"}}]
                s1 == [s EXCEPT !.offer = of, !.opt = [a |-> of.a, p |-> of.p], !.symlist = {}]
            IN Call(s1, "neg", <<of.a, of.p>>)
       [] k = "connect" -> Call(s, "connect", p.a)
       [] k = "mail"    ->
            Call([s EXCEPT !.msg = "in",
                           !.macros = [c \in DOMAIN @ |-> IF c \in MsgStages \ {"mail"} THEN {} ELSE @[c]]],
                 "mail", p.a)
       [] k \in {"helo", "rcpt", "header", "unknown", "data", "eoh"} -> Call(s, k, p.a)
       [] k = "body"    -> Call(s, "body", p.a)
       [] k = "eom"     ->
            LET s1 == [s EXCEPT !.msg = "eom", !.chunk = p.a, !.quar = NULL]
            IN IF s.cfg.api = "smfi" /\ p.a # <<>> /\ Has(s, "body")
               THEN Ask(s1, "body", p.a) ELSE Eom2(s1)
       [] k = "abort"   ->
            LET in == s.msg # "no"
                z == [s EXCEPT !.msg = "no", !.pend = "", !.prog = FALSE, !.buf = <<>>, !.quar = NULL]
            IN IF Has(s, "abort") /\ (in \/ s.cfg.api = "client")
               THEN Ask(z, "abort", IF s.cfg.api = "client" THEN <<IF in THEN "1" ELSE "0">> ELSE <<>>)
               ELSE Resume(Forget(z))
       [] k \in {"quit", "close"} -> Finish(s)

----------------------------------------------------------------------------
(* calls into the library (C02, C03) *)
ModAction == [addheader |-> "addhdrs", insheader |-> "addhdrs", chgheader |-> "chghdrs", delheader |-> "chghdrs",
              chgfrom |-> "chgfrom", addrcpt |-> "addrcpt", addrcptpar |-> "addrcptpar", delrcpt |-> "delrcpt",
              replacebody |-> "chgbody", quarantine |-> "quarantine"]

Neg(x) == Ch(x, 1) = "-"
Given(x) == x # NULL
Full(x) == x # NULL /\ x # ""
ArgsOk(s, f, a) ==
  CASE f = "addheader" -> Full(a[1]) /\ Given(a[2])
    [] f = "insheader" -> ~Neg(a[1]) /\ Full(a[2]) /\ Given(a[3])
    [] f = "chgheader" -> Full(a[1]) /\ ~Neg(a[2])
    [] f = "delheader" -> Full(a[1])
    [] f \in {"chgfrom", "addrcpt", "delrcpt", "quarantine"} -> Full(a[1])
    [] f = "addrcptpar" -> Full(a[1])
    [] OTHER -> TRUE

Sent(f, a) ==
  CASE f = "addheader" -> <<Pk("addhdr", <<a[1], a[2]>>)>>
    [] f = "insheader" -> <<Pk("inshdr", <<a[1], a[2], a[3]>>)>>
    [] f = "chgheader" -> <<Pk("chghdr", <<a[2], a[1], IF a[3] = NULL THEN "" ELSE a[3]>>)>>
    [] f = "delheader" -> <<Pk("chghdr", <<a[2], a[1], "">>)>>
    [] f = "chgfrom"   -> <<Pk("chgfrom", IF a[2] = NULL THEN <<a[1]>> ELSE <<a[1], a[2]>>)>>
    [] f = "addrcpt"   -> <<Pk("addrcpt", <<a[1]>>)>>
    [] f = "addrcptpar" -> <<Pk("addrcptpar", <<a[1], a[2]>>)>>
    [] f = "delrcpt"   -> <<Pk("delrcpt", <<a[1]>>)>>
    [] f = "replacebody" -> [i \in 1..Len(a) |-> Pk("replbody", <<a[i]>>)]

InEom(s) == s.cmd = "eom" /\ s.pend # ""

Unbrace(n) == IF Len(n) > 2 /\ Ch(n, 1) = "{" /\ Ch(n, Len(n)) = "}" THEN SubSeq(n, 2, Len(n) - 1) ELSE n
Vals(s, n) ==
  LET hit(i) == {x \in s.macros[MacroOrder[i]] : x[1] = n}
      is == {i \in 1..Idx(s.mctx) : hit(i) # {}}
  IN IF is = {} THEN NULL ELSE LET m == CHOOSE i \in is : \A j \in is : j <= i IN (CHOOSE x \in hit(m) : TRUE)[2]
MacroOf(s, n) == LET v == Vals(s, n) IN IF v # NULL THEN v ELSE Vals(s, Unbrace(n))

DoCall(s, f, a) ==
  LET ok(x) == ToCtl(x, Res("ok", <<>>))
      no == ToCtl(s, Res("fail", <<>>))
  IN CASE f = "setreply" ->
            IF CodeOk(a[1]) /\ ExtOk(a[1], a[2]) THEN ok([s EXCEPT !.reply = [code |-> a[1], ext |-> a[2], msg |-> a[3]]]) ELSE no
       [] f = "setmlreply" ->
            LET ls == SubSeq(a, 3, Len(a))
                lineok(l) == Len(l) <= 980 /\ \A i \in 1..Len(l) : Ch(l, i) # "\r"
                text == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE "\n") \o ls[i], "", [i \in 1..Len(ls) |-> i])
            IN IF (\A i \in 1..Len(ls) : lineok(ls[i])) /\ CodeOk(a[1]) /\ ExtOk(a[1], a[2])
               THEN ok([s EXCEPT !.reply = [code |-> a[1], ext |-> a[2], msg |-> text]]) ELSE no
       [] f \in DOMAIN ModAction ->
            LET allowed == ModAction[f] \in s.opt.a
            IN IF f = "quarantine"
               THEN IF (allowed \/ s.offer.v = "") /\ (s.cfg.api = "client" \/ (InEom(s) /\ ArgsOk(s, f, a)))
                    THEN ok(IF InEom(s) THEN [s EXCEPT !.quar = a[1]] ELSE s) ELSE no
               ELSE IF InEom(s) /\ allowed /\ ArgsOk(s, f, a) THEN ok([s EXCEPT !.buf = @ \o Sent(f, a)]) ELSE no
       [] f = "progress" -> ok([s EXCEPT !.pg = @ + 1, !.timer = TRUE, !.idle = 0])
       [] f = "setsymlist" ->
            IF s.cmd # "neg" \/ s.pend = "" THEN no
            ELSE ok([s EXCEPT !.symlist = {x \in @ : x[1] # a[1]} \cup {<<a[1], a[i]>> : i \in 2..Len(a)}])
       [] f = "getmacro" -> ToCtl(s, Res("ok", <<MacroOf(s, a[1])>>))
       [] f = "setpriv"  -> ok([s EXCEPT !.priv = a[1]])
       [] f = "getpriv"  -> ToCtl(s, Res("ok", <<s.priv>>))
       [] f = "format"   -> ToCtl(s, Res("ok", <<IF s.reply.code = "" THEN NULL ELSE Fmt(s.reply)>>))

Return(s, e) ==
  CASE e.st = "progress" -> [IF s.cmd = "abort" THEN Forget(s) ELSE s EXCEPT !.prog = TRUE]
    [] s.cmd = "neg" /\ e.st = "continue" -> Respond([s EXCEPT !.opt = [a |-> e.oa, p |-> e.op]], e.st)
    [] s.cmd = "eom" /\ s.pend = "body" ->
         IF e.st \in {"reject", "tempfail", "discard", "accept"} THEN Respond(s, e.st)
         ELSE Eom2([s EXCEPT !.pend = ""])
    [] OTHER -> Respond(s, e.st)

(* a blocked filter does not read; a postponed answer does not block *)
Blocked(s) == s.ph = "run" /\ s.pend # "" /\ ~s.prog
Arrive(s, p) == IF ~Blocked(s) THEN Deliver(s, p) ELSE [s EXCEPT !.q = Append(@, p)]

Step(s0, e) ==
  LET s == [s0 EXCEPT !.out = [mta |-> <<>>, ctl |-> <<>>, eof |-> FALSE]]
  IN IF s.ph = "end" THEN s
     ELSE CASE e.t = "mta"   -> Arrive(s, e.p)
            [] e.t = "close" -> Arrive([s EXCEPT !.gone = TRUE], Pk("close", <<>>))
            [] e.t = "call"  -> DoCall(s, e.f, e.a)
            [] e.t = "ret"   -> Return(s, e)
            [] e.t = "tick"  ->
                 IF s.timer /\ s.idle + e.d > s.cfg.timeout THEN Finish(s) ELSE [s EXCEPT !.idle = @ + e.d]
            [] e.t = "end"   -> s
=============================================================================
