----------------------------- MODULE ClientModel -----------------------------
(***************************************************************************)
(* A filter written with the client library, closed with an MTA and with   *)
(* callbacks that call the library and return what they like.  What has to *)
(* hold is stated again here from what the MTA and the callbacks see (h).  *)
(***************************************************************************)
EXTENDS Client
CONSTANTS Apis, Cbs,     \* interfaces; sets of callbacks that are set
          Acts,          \* actions offered: a set of sets
          Calls,         \* calls a callback may make: <<function, arguments>>
          Stats,         \* what callbacks return
          MaxCall, MaxMsg, Early

VARIABLES s, env, h
vars == <<s, env, h>>

Env0 == [at |-> "new", nm |-> 0, calls |-> 0]
(* owe: answers the MTA is owed; stale: it no longer waits for, but may get; *)
(* made: changes accepted, in order; quar:    *)
(* the quarantine; rep: the reply set for the answer to come; in: messages  *)
(* begun and not over                                                       *)
H0 == [owe |-> 0, stale |-> 0, made |-> <<>>, quar |-> <<>>, rep |-> <<>>, in |-> 0, closes |-> 0, bad |-> {}]

Init == /\ \E a \in Apis, c \in Cbs : s = Init0([api |-> a, cbs |-> c, timeout |-> 10])
        /\ env = Env0 /\ h = H0

Flag(b, n) == IF b THEN {} ELSE {n}
ModKinds == {"addhdr", "inshdr", "chghdr", "chgfrom", "addrcpt", "addrcptpar", "delrcpt", "replbody"}
Finals == {"continue", "accept", "reject", "tempfail", "discard", "skip", "replycode", "neg"}
Made(f) == CASE f[1] = "addheader" -> <<Pk("addhdr", f[2])>> [] f[1] = "addrcpt" -> <<Pk("addrcpt", f[2])>>
             [] f[1] = "replacebody" -> <<Pk("replbody", f[2])>> [] OTHER -> <<>>

Observe(e, s1) ==
  LET out == s1.out.mta
      ctl == s1.out.ctl
      fin == SelectSeq(out, LAMBDA p : p.k \in Finals)
      mods == SelectSeq(out, LAMBDA p : p.k \in ModKinds)
      quars == SelectSeq(out, LAMBDA p : p.k = "quarantine")
      called == {ctl[i].n : i \in {j \in DOMAIN ctl : ctl[j].k = "cb"}}
      okd == e.t = "call" /\ ctl # <<>> /\ ctl[1].k = "res" /\ ctl[1].n = "ok"
      made == IF okd /\ e.f \in DOMAIN ModAction /\ e.f # "quarantine" THEN h.made \o Made(<<e.f, e.a>>) ELSE h.made
      quar == IF okd /\ e.f = "quarantine" /\ s.cmd = "eom" THEN e.a ELSE h.quar
      rep == IF okd /\ e.f = "setreply" THEN e.a ELSE h.rep
      cmd == e.t = "mta" /\ e.p.k \notin {"abort", "quit"}
      drop == e.t \in {"close"} \/ (e.t = "mta" /\ e.p.k \in {"abort", "quit"})
      stale == h.stale + (IF drop THEN h.owe ELSE 0)
      late == IF Len(fin) <= stale THEN Len(fin) ELSE stale
      owe == IF drop THEN 0 ELSE h.owe + (IF cmd THEN 1 ELSE 0) - (Len(fin) - late)
      v == IF fin = <<>> THEN "" ELSE fin[1].k
      st == IF e.t = "ret" THEN e.st ELSE "unset"
      over == fin # <<>> \/ (e.t = "ret" /\ s.cmd = "abort") \/ (drop /\ h.owe = 0 /\ h.stale = 0)
  IN [h EXCEPT
       !.owe = owe, !.stale = stale - late,
       !.made = IF over THEN <<>> ELSE made,
       !.quar = IF over THEN <<>> ELSE quar,
       !.rep = IF over /\ (fin = <<>> \/ (IF e.t = "mta" THEN e.p.k ELSE s.cmd) # "neg") THEN <<>> ELSE rep,
       !.in = @ + (IF e.t = "mta" /\ e.p.k = "mail" THEN 1 ELSE 0)
                - (IF "abort" \in called \/ (fin # <<>> /\ e.t = "ret" /\ s.cmd = "eom")
                      \/ (fin # <<>> /\ e.t = "mta" /\ e.p.k = "eom") THEN 1 ELSE 0),
       !.closes = IF "close" \in called THEN @ + 1 ELSE @,
       !.bad = @
         \cup Flag(owe \in {0, 1}, "C01 answers owed")
         \cup Flag((owe = 1 /\ s1.ph = "run") => s1.pend # "", "C01 nobody will answer")
         \cup Flag((fin # <<>> /\ e.t = "ret" /\ s.cmd \notin {"neg", "abort"}) =>
                   v = (CASE st \in {"reject", "tempfail"} ->
                               IF rep # <<>> /\ Ch(rep[1], 1) = (IF st = "reject" THEN "5" ELSE "4") THEN "replycode" ELSE st
                          [] st = "continue" -> "continue" [] OTHER -> st), "C01 C03 not what was returned")
         \cup Flag(v = "replycode" => rep # <<>> /\ fin[1].a = <<rep[1] \o " " \o rep[2] \o " " \o rep[3]>>, "C03 not the text that was set")
         \cup Flag((fin # <<>> /\ s.cmd = "eom" /\ e.t = "ret") => mods = made, "C02 changes lost or reordered")
         \cup Flag((fin # <<>> /\ s.cmd = "eom" /\ e.t = "ret") => quars = (IF quar = <<>> THEN <<>> ELSE <<Pk("quarantine", quar)>>), "C02 quarantine")
         \cup Flag((mods # <<>> \/ quars # <<>>) => (s.cmd = "eom" /\ fin # <<>>), "C02 changes outside the end of the message")
         \cup Flag((fin # <<>> /\ out # <<>>) => out[Len(out)].k \in Finals, "C02 changes after the answer")
         \cup Flag(okd /\ e.f \in DOMAIN ModAction /\ e.f # "quarantine" => s.cmd = "eom" /\ ModAction[e.f] \in s.opt.a, "C02 accepted without a right to it")
         \cup Flag("abort" \in called /\ s1.cfg.api = "smfi" => h.in > 0, "C04 abort of nothing")
         \cup Flag((s1.ph = "end") = (h.closes + (IF "close" \in called THEN 1 ELSE 0) = 1), "C04 close")
         \cup Flag(s.ph = "end" => out = <<>> /\ ctl = <<>>, "C04 after the end")]

Do(e, n1) ==
  LET s1 == Step(s, e)
  IN /\ s' = [s1 EXCEPT !.out = [mta |-> <<>>, ctl |-> <<>>, eof |-> FALSE]]
     /\ env' = n1
     /\ h' = Observe(e, s1)

At(k) == [env EXCEPT !.at = IF k = "abort" THEN "idle" ELSE k, !.nm = IF k \in {"eom", "abort"} THEN @ + 1 ELSE @, !.calls = 0]
Mta(k, a) == Do([t |-> "mta", p |-> Pk(k, a)], At(k))

MtaActs ==
  \/ h.owe = 0 /\
     \/ env.at = "new" /\ \E x \in Acts : Do([t |-> "mta", p |-> [k |-> "neg", a |-> <<>>, s |-> {<<"v", "6">>} \cup {<<"a", y>> : y \in x}]], At("neg"))
     \/ env.at = "neg" /\ Mta("connect", <<"h", "4", "1", "192.0.2.1">>)
     \/ env.at \in {"connect", "idle", "eom"} /\ env.nm < MaxMsg /\ Mta("mail", <<"<f@x>">>)
     \/ env.at = "mail" /\ Mta("rcpt", <<"<t@x>">>)
     \/ env.at = "rcpt" /\ \E c \in {<<>>, <<"t001">>} : Mta("eom", c)
     \/ env.at \in {"connect", "idle", "eom"} /\ Mta("quit", <<>>)
     \/ env.at \in {"connect", "mail", "rcpt", "idle", "eom"} /\ env.nm < MaxMsg /\ Mta("abort", <<>>)
  \/ Early /\ h.owe = 1 /\ ~s.prog /\ env.at \in {"mail", "rcpt", "eom"} /\ s.q = <<>> /\ Mta("abort", <<>>)
  \/ Early /\ h.owe = 1 /\ ~s.gone /\ s.q = <<>> /\ Do([t |-> "close"], [env EXCEPT !.at = "gone"])

CbActs ==
  /\ s.pend # ""
  /\ \/ env.calls < MaxCall /\ ~s.prog /\ \E f \in Calls : Do([t |-> "call", f |-> f[1], a |-> f[2]], [env EXCEPT !.calls = @ + 1])
     \/ \E v \in Stats : (v = "progress" => s.cmd = "eom" /\ s.pend = "eom" /\ ~s.prog)
          /\ Do([t |-> "ret", st |-> v, oa |-> s.offer.a, op |-> {}], env)

Next == \/ s.ph # "end" /\ env.at # "quit" /\ (MtaActs \/ CbActs)
        \/ s.ph # "end" /\ env.at = "quit" /\ CbActs
Spec == Init /\ [][Next]_vars
Sound == h.bad = {}
Alive == s.ph # "end" => ENABLED Next
Brief == [cmd |-> s.cmd, pend |-> s.pend, prog |-> s.prog, q |-> s.q, api |-> s.cfg.api, env |-> env, h |-> h]
=============================================================================
