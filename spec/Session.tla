------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The intended behaviour of one milter-manager session, between one MTA   *)
(* and n milters, as a reactive transition function.                       *)
(*                                                                         *)
(*   Step(s, e)  is the state after the environment event e; s'.out holds  *)
(*   every packet the manager sends in reaction to e before it waits for   *)
(*   the environment again.                                                *)
(*                                                                         *)
(* Packets are records [k, a, s]: kind, sequence of string arguments, set  *)
(* of name/value pairs (options and macros only).  Message bodies are      *)
(* sequences of tokens.                                                    *)
(*                                                                         *)
(* Everything here is written from the documentation and the milter        *)
(* protocol; the implementation is bound to it by trace validation         *)
(* (TraceCheck) and by replaying behaviours of MilterManager.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Negative == {"tempfail", "reject", "discard"}
Verdicts == {"continue", "accept"} \cup Negative
Parallel == {"connect", "helo", "mail", "rcpt", "data", "unknown"}
Content  == {"header", "eoh", "body", "eom"}
Mods     == {"addhdr", "inshdr", "chghdr", "replbody", "chgfrom", "addrcpt",
             "addrcptpar", "delrcpt", "quarantine"}

(* M01: severity order of verdicts *)
Rank == [none |-> 0, accept |-> 1, continue |-> 2, tempfail |-> 3,
         reject |-> 4, discard |-> 5]

NoStep == [connect |-> "noconnect", helo |-> "nohelo", mail |-> "nomail",
           rcpt |-> "norcpt", data |-> "nodata", unknown |-> "nounknown",
           header |-> "nohdrs", eoh |-> "noeoh", body |-> "nobody",
           eom |-> "-"]
NrStep == [connect |-> "nr_conn", helo |-> "nr_helo", mail |-> "nr_mail",
           rcpt |-> "nr_rcpt", data |-> "nr_data", unknown |-> "nr_unknown",
           header |-> "nr_hdr", eoh |-> "nr_eoh", body |-> "nr_body",
           eom |-> "-"]
NrSteps  == {NrStep[k] : k \in DOMAIN NrStep} \ {"-"}
NoSteps  == {NoStep[k] : k \in DOMAIN NoStep} \ {"-"}
YesSteps == {"skip", "rcptrej", "leadspc"}
MaxVersion == 6

(* the action a milter must have negotiated for each change *)
ActionOf == [addhdr |-> "addhdrs", inshdr |-> "addhdrs", chghdr |-> "chghdrs",
             replbody |-> "chgbody", chgfrom |-> "chgfrom",
             addrcpt |-> "addrcpt", addrcptpar |-> "addrcptpar",
             delrcpt |-> "delrcpt", quarantine |-> "quarantine"]

MsgStages == {"mail", "rcpt", "data", "header", "eoh", "body", "eom"}
AllStages == MsgStages \cup {"connect", "helo", "unknown"}

Pk(k, a)     == [k |-> k, a |-> a, s |-> {}]
PkS(k, a, s) == [k |-> k, a |-> a, s |-> s]

NoMacros == [st \in AllStages |-> {}]

NewKid == [st |-> "new",       \* new, retry, nego, up, gone
           aw |-> "",          \* the command whose answer is awaited
           acts |-> {}, steps |-> {}, ver |-> 0, mreq |-> {},
           part |-> FALSE,     \* takes part in the current message
           left |-> 0,         \* recipients it did not refuse
           refused |-> FALSE,  \* it refused some recipient
           last |-> "",        \* last command it was given
           skip |-> FALSE,     \* wants no more body
           stat |-> "none",    \* its verdict on the message
           mac |-> NoMacros,
           age |-> 0]          \* seconds since the awaited command was sent

NewMsg == [hdr0 |-> <<>>, hdrs |-> <<>>, hchg |-> FALSE,
           body |-> <<>>, eomchunk |-> <<>>,
           log |-> {},         \* content stages the MTA has reached
           q |-> <<>>,         \* milters still to be given the content
           started |-> FALSE,  \* q was set up
           fresh |-> FALSE,    \* Head(q) starts from the beginning
           hix |-> 0, boff |-> 0,
           repl |-> FALSE,     \* body was replaced
           replby |-> 0,       \* last milter replacing it
           from |-> <<>>, quar |-> <<>>]

Init0(cfg) ==
  [cfg |-> cfg, ph |-> "new", ver |-> 0, acts |-> {}, steps |-> {},
   annsteps |-> {}, cmd |-> "", arg |-> <<>>, prev |-> "", emul |-> FALSE,
   agg |-> "none", txt |-> <<>>, failed |-> FALSE,
   kids |-> [i \in 1..cfg.n |-> NewKid], m |-> NewMsg,
   up |-> cfg.up,
   begun |-> FALSE,        \* the macros of the next MAIL have been given
   shelf |-> {},           \* what conditions share while a message is processed
   fin |-> [on |-> FALSE],
   out |-> [mta |-> <<>>, kids |-> [i \in 1..cfg.n |-> <<>>]]]

Ids(s) == [i \in 1..s.cfg.n |-> i]
Gone(s, i) == s.kids[i].st # "up"
Lower(s, n) == IF n \in DOMAIN s.cfg.lc THEN s.cfg.lc[n] ELSE n

-----------------------------------------------------------------------------
(* Emission *)

ToMta(s, p) == [s EXCEPT !.out.mta = Append(@, p)]
ToKid(s, i, p) == [s EXCEPT !.out.kids[i] = Append(@, p)]

Waived(s) == s.cmd \in DOMAIN NrStep /\ NrStep[s.cmd] \in s.annsteps

(* M02: the one answer to the outstanding command; M03: text only with its class *)
Answer(s, st, txt) ==
  LET p == IF st \in {"tempfail", "reject"} /\ txt # <<>>
           THEN Pk("replycode", txt) ELSE Pk(st, <<>>)
      t == IF Waived(s) THEN s ELSE ToMta(s, p)
  IN [t EXCEPT !.prev = s.cmd, !.cmd = "", !.agg = "none", !.txt = <<>>, !.emul = FALSE]

Compile(s, st, txt) ==
  IF Rank[st] > Rank[s.agg] THEN [s EXCEPT !.agg = st, !.txt = txt]
  ELSE IF st = s.agg /\ txt # <<>> THEN [s EXCEPT !.txt = txt]
  ELSE s

(* M15 *)
Filter(s, i, st) ==
  LET req == {r[2] : r \in {x \in s.kids[i].mreq : x[1] = st}}
      m   == s.kids[i].mac[st]
  IN IF req = {} THEN m ELSE {x \in m : x[1] \in req}

Give(s, i, k, a) ==
  LET ms == IF k = "unknown" THEN {} ELSE Filter(s, i, k)
      t  == IF ms = {} THEN s ELSE ToKid(s, i, PkS("macro", <<k>>, ms))
      u  == ToKid(t, i, Pk(k, a))
  IN [u EXCEPT !.kids[i].last = k,
               !.kids[i].aw = IF NrStep[k] \in s.kids[i].steps THEN "" ELSE k,
               !.kids[i].age = 0]

ClearKidMsg(kid) ==
  [kid EXCEPT !.skip = FALSE, !.left = 0, !.refused = FALSE,
              !.mac = [st \in AllStages |-> IF st \in MsgStages THEN {} ELSE @[st]]]

(* M07: everybody still involved is told to drop the message *)
AbortAll(s) ==
  LET one(t, i) ==
        IF Gone(t, i) THEN t
        ELSE LET u == IF t.kids[i].part \/ t.kids[i].last = "mail"
                      THEN [ToKid(t, i, Pk("abort", <<>>)) EXCEPT !.kids[i].last = "abort"]
                      ELSE t
             IN [u EXCEPT !.kids[i] = [ClearKidMsg(@) EXCEPT !.part = FALSE, !.aw = ""]]
  IN [FoldLeft(one, s, Ids(s)) EXCEPT !.m = NewMsg, !.shelf = {}]

(* one milter is told to drop the message *)
AbortKid(s, i) ==
  [ToKid(s, i, Pk("abort", <<>>))
     EXCEPT !.kids[i] = [ClearKidMsg(@) EXCEPT !.part = FALSE, !.aw = "", !.last = "abort"]]

QuitKid(s, i) ==
  [ToKid(s, i, Pk("quit", <<>>)) EXCEPT !.kids[i].st = "gone", !.kids[i].aw = "",
                                        !.kids[i].part = FALSE]

-----------------------------------------------------------------------------
(* Applicable conditions (K01).  A milter's conditions are a sequence of     *)
(* stoppers; a stopper is asked before a command is given to the milter,     *)
(* whether or not the milter wants that command.                             *)

Stoppers(s, i, k) == SelectSeq(s.cfg.conds[i], LAMBDA c : c.st = k)

Within(x, q) == \E j \in DOMAIN q : q[j] = x

Seen == [connect |-> 1, helo |-> 2, mail |-> 3, rcpt |-> 4, data |-> 5, header |-> 6,
         eoh |-> 7, body |-> 8, eom |-> 9, unknown |-> 10]

(* the macros a milter has been given, up to the current stage; the latest wins *)
MacroValue(s, i, k, n) ==
  LET S == {st \in AllStages : Seen[st] <= Seen[k] /\ \E x \in s.kids[i].mac[st] : x[1] = n}
      l == CHOOSE st \in S : \A y \in S : Seen[y] <= Seen[st]
  IN IF S = {} THEN "" ELSE (CHOOSE x \in s.kids[i].mac[l] : x[1] = n)[2]

Holds(s, i, k, a, c) ==
  CASE c.op = "always"  -> TRUE
    [] c.op = "never"   -> FALSE                     \* also: the stopper raised an error
    [] c.op = "arg"     -> Len(a) >= c.ix /\ Within(a[c.ix], c.v)
    [] c.op = "notarg"  -> ~(Len(a) >= c.ix /\ Within(a[c.ix], c.v))
    [] c.op = "set"     -> MacroValue(s, i, k, c.key) # ""
    [] c.op = "unset"   -> MacroValue(s, i, k, c.key) = ""
    [] c.op = "token"   -> \E j \in DOMAIN a : Within(a[j], c.v)
    [] c.op = "macro"   -> Within(MacroValue(s, i, k, c.key), c.v)
    [] c.op = "quitted" -> s.kids[c.ix].st = "gone"
    [] c.op = "verdict" -> s.kids[c.ix].stat = c.key
    [] c.op = "shelf"   -> c.key \in s.shelf
    [] OTHER            -> FALSE

(* asking them in turn until one says stop -> [stop, s]; they may leave a note *)
(* on the shelf, or define a macro for their milter                            *)
StopEval(s0, i, k, a) ==
  FoldLeft(LAMBDA r, c :
             IF r.stop THEN r
             ELSE CASE c.op = "put" -> [r EXCEPT !.s.shelf = @ \cup {c.key}]
                    [] c.op = "define" ->
                         IF ~Within(a[c.ix], c.v) THEN r
                         ELSE [r EXCEPT !.s.kids[i].mac[k] =
                                 {x \in @ : x[1] # c.key} \cup {<<c.key, c.val>>}]
                    [] OTHER -> [r EXCEPT !.stop = Holds(r.s, i, k, a, c)],
           [stop |-> FALSE, s |-> s0], Stoppers(s0, i, k))

-----------------------------------------------------------------------------
(* Header lists, with the MTA's semantics (M08, M09) *)

SameName(s, h, n) == Lower(s, h[1]) = Lower(s, n)

FirstSame(s, H, n) ==
  LET I == {i \in 1..Len(H) : SameName(s, H[i], n)}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

InsertBefore(H, i, h) == SubSeq(H, 1, i - 1) \o <<h>> \o SubSeq(H, i, Len(H))

AddHdr(s, H, n, v) ==
  LET i == FirstSame(s, H, n)
  IN IF i = 0 THEN Append(H, <<n, v>>) ELSE InsertBefore(H, i, <<n, v>>)

InsHdr(H, pos, n, v) ==
  IF pos >= Len(H) THEN Append(H, <<n, v>>) ELSE InsertBefore(H, pos + 1, <<n, v>>)

NthSame(s, H, n, idx) ==
  LET I == {i \in 1..Len(H) : SameName(s, H[i], n)}
      J == {i \in I : Cardinality({j \in I : j <= i}) = idx}
  IN IF J = {} THEN 0 ELSE CHOOSE i \in J : TRUE

ChgHdr(s, H, n, idx, v) ==
  LET i == NthSame(s, H, n, idx)
  IN IF v = "" THEN IF i = 0 THEN H ELSE RemoveAt(H, i)
     ELSE IF i = 0 THEN AddHdr(s, H, n, v)
     ELSE [H EXCEPT ![i] = <<@[1], v>>]

ApplyHdr(s, H, p, conv(_)) ==
  CASE p.k = "addhdr" -> AddHdr(s, H, p.a[1], conv(p.a[2]))
    [] p.k = "inshdr" -> InsHdr(H, s.cfg.num[p.a[1]], p.a[2], conv(p.a[3]))
    [] p.k = "chghdr" -> ChgHdr(s, H, p.a[2], s.cfg.num[p.a[1]],
                                IF p.a[3] = "" THEN "" ELSE conv(p.a[3]))
    [] OTHER -> H

(* leading space: the MTA keeps it only if some milter asked for it *)
Spaced(s, i) == "leadspc" \in s.annsteps /\ "leadspc" \notin s.kids[i].steps
LeadsSpace(v) == Len(v) > 0 /\ SubSeq(v, 1, 1) = " "
ValueToKid(s, i, v) ==
  IF Spaced(s, i) /\ LeadsSpace(v) THEN SubSeq(v, 2, Len(v)) ELSE v
ValueFromKid(s, i, v) ==
  IF Spaced(s, i) /\ ~LeadsSpace(v) THEN " " \o v ELSE v

-----------------------------------------------------------------------------
(* Sequential part: the content goes through the milters one after another *)

HasAccepted(s, i) == ~s.kids[i].refused \/ s.kids[i].left > 0

InitQueue(s) ==
  IF s.m.started THEN s
  ELSE LET one(t, i) ==
             IF Gone(t, i) \/ ~t.kids[i].part THEN t
             ELSE IF HasAccepted(t, i) THEN [t EXCEPT !.m.q = Append(@, i)]
             ELSE AbortKid(t, i)
       IN [FoldLeft(one, s, Ids(s)) EXCEPT !.m.started = TRUE]

Order == <<"header", "eoh", "body", "eom">>
Pos(k) == CHOOSE i \in 1..4 : Order[i] = k

Relevant(s, k) ==
  CASE k = "header" -> Len(s.m.hdrs) > 0 /\ s.m.log # {}
    [] k = "body"   -> Len(s.m.body) > 0
    [] OTHER        -> k \in s.m.log

(* the stages after stage number p that the current milter still has to see *)
Later(s, p) == {j \in (p+1)..4 : Relevant(s, Order[j])}

Finished(s) ==           \* M09: nobody is left to see the message
  IF s.cmd = "eom"
  THEN LET f == [on |-> TRUE, hdr0 |-> s.m.hdr0, hdrs |-> s.m.hdrs, hchg |-> s.m.hchg,
                 repl |-> s.m.repl, body |-> s.m.body, from |-> s.m.from, quar |-> s.m.quar]
           t == Answer([s EXCEPT !.fin = f], IF s.agg = "none" THEN "accept" ELSE s.agg, <<>>)
       IN [t EXCEPT !.m = NewMsg, !.shelf = {},
                    !.kids = [i \in DOMAIN @ |-> ClearKidMsg(@[i])]]
  ELSE Answer(s, "accept", <<>>)

RECURSIVE StartKid(_), GiveStage(_, _, _), AfterStage(_, _, _), NextStage(_, _, _)

StartKid(s) ==
  IF s.m.q = <<>> THEN Finished(s)
  ELSE NextStage([s EXCEPT !.m.hix = 0, !.m.boff = 0, !.m.fresh = FALSE], Head(s.m.q), 0)

NextStage(s, i, p) ==
  LET L == Later(s, p)
  IN IF L = {}
     THEN Answer(s, "continue", <<>>)         \* it has seen all there is
     ELSE GiveStage(s, i, Order[CHOOSE j \in L : \A x \in L : j <= x])

(* a condition keeps milter i away from the rest of this message *)
StopContent(s, i, k) ==
  StartKid(AbortKid(IF k = "eom" THEN Compile([s EXCEPT !.m.q = Tail(@)], "accept", <<>>)
                                 ELSE [s EXCEPT !.m.q = Tail(@)], i))

(* ask the conditions, then give it unless the milter does not want it *)
GiveUnless(s, i, k, a, no) ==
  LET r == StopEval(s, i, k, a)
      t == r.s
  IN IF r.stop THEN StopContent(t, i, k)
     ELSE IF no THEN AfterStage(t, i, k)
     ELSE LET u == Give(t, i, k, a)
          IN IF u.kids[i].aw = "" /\ k # "eom" THEN AfterStage(u, i, k) ELSE u

GiveStage(s, i, k) ==
  LET no == NoStep[k] \in s.kids[i].steps
  IN CASE k = "header" ->
            LET h == s.m.hdrs[s.m.hix + 1]
            IN GiveUnless([s EXCEPT !.m.hix = @ + 1], i, k,
                          <<h[1], ValueToKid(s, i, h[2])>>, no)
       [] k = "body" ->
            IF no \/ s.kids[i].skip
            THEN AfterStage([s EXCEPT !.m.boff = Len(s.m.body)], i, k)
            ELSE LET e == IF s.m.boff + s.cfg.chunk < Len(s.m.body)
                          THEN s.m.boff + s.cfg.chunk ELSE Len(s.m.body)
                 IN GiveUnless([s EXCEPT !.m.boff = e], i, k,
                               SubSeq(s.m.body, s.m.boff + 1, e), FALSE)
       [] k = "eom" -> GiveUnless(s, i, k, s.m.eomchunk, FALSE)
       [] OTHER -> GiveUnless(s, i, k, <<>>, no)

AfterStage(s, i, k) ==
  CASE k = "header" /\ s.m.hix < Len(s.m.hdrs) -> GiveStage(s, i, k)
    [] k = "body" /\ s.m.boff < Len(s.m.body) -> GiveStage(s, i, k)
    [] k = "eom" -> StartKid(Compile([s EXCEPT !.m.q = Tail(@)], "continue", <<>>))
    [] OTHER -> NextStage(s, i, Pos(k))

(* milter i has seen enough of this message (its own choice or failure) *)
Leaves(s, i) ==
  StartKid([s EXCEPT !.m.q = Tail(@), !.kids[i].part = FALSE, !.kids[i].aw = ""])

(* the whole message is over, badly *)
Refuse(s, i, st, txt) ==
  AbortAll(Answer([s EXCEPT !.kids[i].part = FALSE, !.kids[i].aw = ""], st, txt))

MtaContentLive(s0, k, a) ==
  LET s == InitQueue(s0)
      i == Head(s.m.q)
      t == CASE k = "header" -> [s EXCEPT !.m.hdrs = Append(@, <<a[1], a[2]>>),
                                          !.m.hdr0 = Append(@, <<a[1], a[2]>>)]
             [] k = "body"   -> [s EXCEPT !.m.body = @ \o a]
             [] k = "eom"    -> [s EXCEPT !.m.eomchunk = a]
             [] OTHER -> s
      u == [t EXCEPT !.m.log = @ \cup {k}]
  IN IF u.m.q = <<>> THEN Answer(u, u.cfg.gfb, <<>>)
     ELSE IF u.m.fresh THEN IF Waived(u) THEN Answer(u, "continue", <<>>) ELSE StartKid(u)
     ELSE IF k = "body" THEN
          IF NoStep[k] \in u.kids[i].steps \/ u.kids[i].skip
          THEN AfterStage([u EXCEPT !.m.boff = Len(u.m.body)], i, k)
          ELSE GiveUnless([u EXCEPT !.m.boff = Len(u.m.body)], i, k, a, FALSE)
     ELSE GiveStage(u, i, k)

-----------------------------------------------------------------------------
(* Parallel part: one command goes to several milters at once *)

ParFinish(s) ==
  LET st == s.agg
      k  == IF s.emul THEN "data" ELSE s.cmd
  IN IF s.emul /\ st = "continue"
     THEN MtaContentLive([s EXCEPT !.emul = FALSE, !.agg = "none", !.txt = <<>>], s.cmd, s.arg)
     ELSE LET t == Answer(s, st, s.txt)
          IN IF st = "discard" \/ (st \in Negative /\ k # "rcpt") THEN AbortAll(t) ELSE t

ParCheck(s) ==
  IF s.cmd # "" /\ \A i \in 1..s.cfg.n :
       s.kids[i].aw \notin (Parallel \cap {IF s.emul THEN "data" ELSE s.cmd})
  THEN ParFinish(s) ELSE s

Targets(s, k) ==
  {i \in 1..s.cfg.n :
     /\ ~Gone(s, i)
     /\ k \in {"rcpt", "data"} => s.kids[i].part
     /\ k = "data" => HasAccepted(s, i)}

(* K01: kept away from the session, from the message, or from one recipient *)
StopParallel(s, i, k) ==
  CASE k \in {"connect", "helo"} -> QuitKid(Compile(s, "accept", <<>>), i)
    [] k = "mail" -> Compile([s EXCEPT !.kids[i].part = FALSE, !.kids[i].last = k], "accept", <<>>)
    [] k = "rcpt" -> Compile(s, "continue", <<>>)
    [] OTHER      -> Compile(AbortKid(s, i), "accept", <<>>)

GiveAll(s, k, a) ==
  LET T == Targets(s, k)
      drop(t, i) == IF k = "data" /\ ~Gone(t, i) /\ t.kids[i].part /\ i \notin T
                    THEN AbortKid(t, i)
                    ELSE t
      one(t, i) ==
        IF i \notin T THEN t
        ELSE LET u == IF k = "mail" THEN [t EXCEPT !.kids[i].part = TRUE, !.kids[i].stat = "none"]
                      ELSE IF k = "rcpt" THEN [t EXCEPT !.kids[i].left = @ + 1]
                      ELSE t
                 r == StopEval(u, i, k, a)
                 w == r.s
             IN IF r.stop THEN StopParallel(w, i, k)
                ELSE IF NoStep[k] \in w.kids[i].steps \/ (k = "data" /\ w.kids[i].ver < 4)
                THEN Compile([w EXCEPT !.kids[i].last = k], "continue", <<>>)
                ELSE LET v == Give(w, i, k, a)
                     IN IF v.kids[i].aw = "" THEN Compile(v, "continue", <<>>) ELSE v
      s1 == FoldLeft(drop, s, Ids(s))
  IN IF T = {} THEN Answer(s1, s1.cfg.gfb, <<>>)
     ELSE ParCheck(FoldLeft(one, s1, Ids(s)))

MtaContent(s, k, a) ==
  IF ~\E i \in 1..s.cfg.n : ~Gone(s, i) /\ s.kids[i].part
  THEN Answer(s, s.cfg.gfb, <<>>)
  ELSE IF s.prev = "rcpt" /\ s.ver >= 4
  THEN GiveAll([s EXCEPT !.emul = TRUE, !.arg = a], "data", <<>>)
  ELSE MtaContentLive(s, k, a)

-----------------------------------------------------------------------------
(* Negotiation (M14) *)

(* what is announced to the MTA; actions may be any set between the two bounds *)
NegReply(s) ==
  LET U == {i \in 1..s.cfg.n : s.kids[i].ver > 0}
      nr == {x \in s.steps \cap NrSteps : U # {} /\ \A i \in U : x \in s.kids[i].steps}
      ys == {x \in s.steps \cap YesSteps : \E i \in U : x \in s.kids[i].steps}
      need == UNION {s.kids[i].acts : i \in U}
      mr == UNION {s.kids[i].mreq : i \in U}
  IN [k |-> "NEG", ver |-> s.ver, steps |-> nr \cup ys, need |-> need,
      offer |-> s.acts, mreq |-> mr]

NegCheck(s) ==
  IF s.cmd # "neg" \/ \E i \in 1..s.cfg.n : s.kids[i].st \in {"nego", "retry"} THEN s
  ELSE LET r == NegReply(s)
           bad == \E i \in 1..s.cfg.n : /\ s.kids[i].ver = 0 /\ ~s.cfg.eval[i]
                                        /\ s.cfg.fb[i] \in Negative
           t == [ToMta(s, r) EXCEPT !.cmd = "", !.annsteps = r.steps, !.ph = "run", !.prev = "neg"]
       IN IF bad
          THEN [t EXCEPT !.kids = [i \in DOMAIN @ |->
                  IF @[i].st = "up" THEN [@[i] EXCEPT !.st = "gone", !.aw = ""] ELSE @[i]]]
          ELSE t

OfferPk(s) == PkS("neg", <<>>, {<<"v", ToString(s.ver)>>}
                    \cup {<<"a", x>> : x \in s.acts} \cup {<<"p", x>> : x \in s.steps})

ConnectKid(s, i, ok, again) ==
  IF ok THEN [ToKid(s, i, OfferPk(s)) EXCEPT !.kids[i].st = "nego", !.kids[i].aw = "neg",
                                             !.kids[i].age = 0]
  ELSE IF again THEN [s EXCEPT !.kids[i].st = "gone"]
  ELSE [s EXCEPT !.kids[i].st = "retry", !.kids[i].age = 0]

OptVals(p, tag) == {x[2] : x \in {y \in p.s : y[1] = tag}}
MStages == {"mconnect", "mhelo", "mmail", "mrcpt", "mdata", "meom", "meoh"}
MName == [mconnect |-> "connect", mhelo |-> "helo", mmail |-> "mail", mrcpt |-> "rcpt",
          mdata |-> "data", meom |-> "eom", meoh |-> "eoh"]
OptMacros(p) == {<<MName[x[1]], x[2]>> : x \in {y \in p.s : y[1] \in MStages}}

MtaNeg(s, p) ==
  LET v == s.cfg.num[CHOOSE x \in OptVals(p, "v") : TRUE]
      t == [s EXCEPT !.cmd = "neg", !.ver = IF v > MaxVersion THEN MaxVersion ELSE v,
                     !.acts = OptVals(p, "a"), !.steps = OptVals(p, "p"), !.ph = "neg"]
      one(u, i) == ConnectKid(u, i, u.up[i], FALSE)
  IN NegCheck(FoldLeft(one, t, Ids(s)))

-----------------------------------------------------------------------------
(* A milter fails (M05): it counts as its fallback status if it was asked,  *)
(* in evaluation mode (M04) as having accepted                              *)

Fallback(s, i) == IF s.cfg.eval[i] THEN "accept" ELSE s.cfg.fb[i]

KidFail(s0, i) ==
  LET k == s0.kids[i].aw
      st0 == s0.kids[i].st
      s == [s0 EXCEPT !.kids[i].st = "gone", !.kids[i].aw = "", !.kids[i].part = FALSE]
      f == Fallback(s0, i)
  IN CASE st0 \in {"gone", "new"} -> s0
       [] st0 \in {"nego", "retry"} -> NegCheck(s)
       [] k \in Parallel -> ParCheck(Compile(s, f, <<>>))
       [] k \in Content ->
            IF f \in Negative THEN Refuse(s, i, f, <<>>)
            ELSE Leaves(IF k = "eom" THEN Compile(s, f, <<>>) ELSE s, i)
       [] OTHER ->   \* it was not asked anything
            IF s.m.q # <<>> /\ Head(s.m.q) = i
            THEN [s EXCEPT !.m.q = Tail(@), !.m.fresh = TRUE]
            ELSE [s EXCEPT !.m.q = SelectSeq(@, LAMBDA x : x # i)]

-----------------------------------------------------------------------------
(* Answers and changes from milters *)

ApplyMod(s, i, p) ==
  IF s.cfg.eval[i] \/ ActionOf[p.k] \notin s.kids[i].acts THEN s      \* M04, M17
  ELSE CASE p.k \in {"addhdr", "inshdr", "chghdr"} ->
              LET conv(v) == ValueFromKid(s, i, v)
              IN [s EXCEPT !.m.hdrs = ApplyHdr(s, @, p, conv), !.m.hchg = TRUE]
         [] p.k = "replbody" ->
              [s EXCEPT !.m.body = IF s.m.replby = i THEN @ \o p.a ELSE p.a,
                        !.m.eomchunk = <<>>, !.m.repl = TRUE, !.m.replby = i]
         [] p.k = "chgfrom" -> [s EXCEPT !.m.from = p.a]
         [] p.k = "quarantine" -> [s EXCEPT !.m.quar = p.a]
         [] OTHER -> ToMta(s, Pk(p.k, p.a))      \* recipients are passed on at once

KidVerdict(s0, i, v, txt) ==
  LET k  == s0.kids[i].aw
      ev == s0.cfg.eval[i] /\ v \in Negative
      e  == IF ~ev THEN v
            ELSE IF k = "rcpt" /\ v # "discard" THEN "continue" ELSE "accept"
      x  == IF ev THEN <<>> ELSE txt
      s  == [s0 EXCEPT !.kids[i].aw = "",
                         !.kids[i].stat = IF v = "continue" \/ (k = "rcpt" /\ v \in {"reject", "tempfail"}) THEN @ ELSE v]
  IN CASE k \in {"connect", "helo", "unknown"} ->
            ParCheck(Compile(IF v = "continue" THEN s ELSE QuitKid(s, i), e, x))
       [] k \in {"mail", "data"} ->
            ParCheck(Compile(IF v = "continue" THEN s ELSE [s EXCEPT !.kids[i].part = FALSE], e, x))
       [] k = "rcpt" ->
            LET t == CASE e = "accept" -> [s EXCEPT !.kids[i].part = FALSE]
                       [] v \in {"reject", "tempfail"} ->
                            [s EXCEPT !.kids[i].left = @ - 1, !.kids[i].refused = TRUE]
                       [] OTHER -> s
            IN ParCheck(Compile(t, e, x))
       [] OTHER ->
            IF e = "continue" THEN AfterStage(s, i, k)
            ELSE IF e = "accept"
            THEN Leaves(IF k = "eom" THEN Compile(s, "accept", <<>>) ELSE s, i)
            ELSE Refuse(s, i, e, x)

TextClass(p) == IF SubSeq(p.a[1], 1, 1) = "4" THEN "tempfail" ELSE "reject"

KidNeg(s, i, p) ==
  LET v == s.cfg.num[CHOOSE x \in OptVals(p, "v") : TRUE]
  IN IF v > s.ver THEN KidFail(s, i)
     ELSE NegCheck([s EXCEPT !.kids[i].st = "up", !.kids[i].aw = "", !.kids[i].ver = v,
                             !.kids[i].acts = OptVals(p, "a") \cap s.acts,
                             !.kids[i].steps = OptVals(p, "p") \cap s.steps,
                             !.kids[i].mreq = OptMacros(p)])

KidPacket(s, i, p) ==
  LET k == s.kids[i].aw
  IN CASE s.kids[i].st \in {"gone", "new"} -> s
       [] k = "" -> KidFail(s, i)                        \* M02: it was not asked
       [] k = "neg" -> IF p.k = "neg" THEN KidNeg(s, i, p) ELSE KidFail(s, i)
       [] p.k \in Verdicts -> KidVerdict(s, i, p.k, <<>>)
       [] p.k = "replycode" -> KidVerdict(s, i, TextClass(p), p.a)
       [] p.k \in Mods /\ k = "eom" -> ApplyMod(s, i, p)
       [] p.k = "progress" /\ k = "eom" ->
            ToMta([s EXCEPT !.kids[i].age = 0], Pk("progress", <<>>))
       [] p.k = "skip" /\ k = "body" ->
            AfterStage([s EXCEPT !.kids[i].aw = "", !.kids[i].skip = TRUE,
                                 !.m.boff = Len(s.m.body)], i, "body")
       [] OTHER -> KidFail(s, i)

-----------------------------------------------------------------------------
(* MTA commands *)

(* M11: nothing of an earlier message is left once the next one begins *)
BeginMsg(s) ==
  [s EXCEPT !.m = NewMsg, !.shelf = {},
            !.kids = [i \in DOMAIN @ |-> [ClearKidMsg(@[i]) EXCEPT !.part = FALSE]]]

MtaMacro(s0, p) ==
  LET k == p.a[1]
      s == IF k = "mail" THEN [BeginMsg(s0) EXCEPT !.begun = TRUE] ELSE s0
      el(i) == /\ ~Gone(s, i)
               /\ k \in (MsgStages \ {"mail"}) => s.kids[i].part
  IN [s EXCEPT !.kids = [i \in DOMAIN @ |-> IF el(i) THEN [@[i] EXCEPT !.mac[k] = p.s] ELSE @[i]]]

QuitAll(s) ==
  LET one(t, i) == IF t.kids[i].st \in {"up", "nego"} THEN QuitKid(t, i)
                   ELSE [t EXCEPT !.kids[i].st = "gone"]
  IN [FoldLeft(one, s, Ids(s)) EXCEPT !.ph = "end", !.cmd = ""]

(* ESMTP parameters of MAIL and RCPT are not passed on to milters *)
MtaPacket(s0, p) ==
  LET s == [s0 EXCEPT !.cmd = p.k, !.agg = "none", !.txt = <<>>]
  IN CASE p.k = "neg" -> MtaNeg(s0, p)
       [] p.k = "macro" -> MtaMacro(s0, p)
       [] p.k = "abort" -> [AbortAll(s0) EXCEPT !.prev = "abort", !.cmd = ""]
       [] p.k = "quit" -> QuitAll(s0)
       [] p.k = "mail" ->
            GiveAll([(IF s.begun THEN s ELSE BeginMsg(s)) EXCEPT !.begun = FALSE],
                    p.k, <<p.a[1]>>)
       [] p.k = "rcpt" -> GiveAll(s, p.k, <<p.a[1]>>)
       [] p.k \in Parallel -> GiveAll(s, p.k, p.a)
       [] OTHER -> MtaContent(s, p.k, p.a)

-----------------------------------------------------------------------------
(* Time *)

Limit(s, i) == IF s.kids[i].aw = "eom" THEN s.cfg.eto ELSE s.cfg.rto

Tick(s, d) ==
  LET late == {i \in 1..s.cfg.n :
                 \/ s.kids[i].aw # "" /\ s.kids[i].age + d >= Limit(s, i)
                 \/ s.kids[i].st = "retry" /\ s.kids[i].age + d >= s.cfg.retry}
      aged == [s EXCEPT !.kids = [i \in DOMAIN @ |->
                 IF @[i].aw # "" \/ @[i].st = "retry" THEN [@[i] EXCEPT !.age = @ + d] ELSE @[i]]]
      one(t, i) ==
        IF i \notin late THEN t
        ELSE IF s.kids[i].st = "retry"
             THEN NegCheck(ConnectKid(t, i, t.up[i], TRUE))
             ELSE KidFail(t, i)
  IN FoldLeft(one, aged, Ids(s))

-----------------------------------------------------------------------------
Step(s0, e) ==
  LET s == [s0 EXCEPT !.out = [mta |-> <<>>, kids |-> [i \in 1..s0.cfg.n |-> <<>>]],
                      !.fin = [on |-> FALSE]]
  IN CASE e.t = "mta" -> MtaPacket(s, e.p)
       [] e.t = "mtaclose" -> QuitAll(s)
       [] e.t = "kid" -> KidPacket(s, e.i, e.p)
       [] e.t = "kidclose" -> KidFail(s, e.i)
       [] e.t = "tick" -> Tick(s, e.d)
       [] e.t = "listen" -> [s EXCEPT !.up[e.i] = e.on]
       [] e.t = "wild" -> [s EXCEPT !.ph = "end"]         \* M18: from here on only its end is judged
       [] OTHER -> s

(* several packets of one peer arriving together (M16): as one after another *)
StepAll(s0, e) ==
  IF e.t \notin {"mtaseq", "kidseq"} THEN Step(s0, e)
  ELSE LET ev(p) == IF e.t = "mtaseq" THEN [t |-> "mta", p |-> p]
                    ELSE [t |-> "kid", i |-> e.i, p |-> p]
           one(t, p) ==
             LET u == Step(t, ev(p))
             IN [u EXCEPT !.out.mta = t.out.mta \o @,
                          !.out.kids = [i \in DOMAIN @ |-> t.out.kids[i] \o @[i]],
                          !.fin = IF @.on THEN @ ELSE t.fin]
       IN FoldLeft(one, Step(s0, [t |-> "none"]), e.ps)
=============================================================================
