----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Validates recorded sessions of the real daemon against Session.Step:    *)
(* every state is one (trace, position); a trace is accepted iff for every *)
(* event the packets observed are those of the specification.              *)
(* A rejected trace prints one line  @@MISMATCH {json}  and stops there.   *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

SetOf(q) == {q[i] : i \in DOMAIN q}
Norm(p) == [k |-> p.k, a |-> p.a, s |-> SetOf(p.s)]
NormSeq(q) == [i \in DOMAIN q |-> Norm(q[i])]
Ev(e) == IF e.t \in {"mta", "kid"} THEN [e EXCEPT !.p = Norm(@)]
         ELSE IF e.t \in {"mtaseq", "kidseq"} THEN [e EXCEPT !.ps = NormSeq(@)] ELSE e

CfgOf(c) == c

VARIABLES t, pos, s, ok
vars == <<t, pos, s, ok>>

HdrMods == {"addhdr", "inshdr", "chghdr"}
EndMods == HdrMods \cup {"replbody", "chgfrom", "quarantine"}
NegAns == {"reject", "tempfail", "discard", "replycode"}
Ign == {"eof", "open"}

Only(q, K) == SelectSeq(q, LAMBDA p : p.k \in K)
Without(q, K) == SelectSeq(q, LAMBDA p : p.k \notin K)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q).a \o Cat(Tail(q))

Same(v) == v
MtaHdrs(s1, obs) ==
  FoldLeft(LAMBDA H, p : ApplyHdr(s1, H, p, Same), s1.fin.hdr0, Only(obs, HdrMods))

(* announced actions may lie anywhere between what is needed and what was offered *)
NegOk(x, p) ==
  /\ p.k = "neg"
  /\ OptVals(p, "v") = {ToString(x.ver)}
  /\ OptVals(p, "p") = x.steps
  /\ x.need \subseteq OptVals(p, "a")
  /\ OptVals(p, "a") \subseteq x.offer
  /\ OptMacros(p) = x.mreq

PkOk(x, p) == IF x.k = "NEG" THEN NegOk(x, p) ELSE x = p

SeqOk(xs, ps) == Len(xs) = Len(ps) /\ \A i \in 1..Len(xs) : PkOk(xs[i], ps[i])

(* end-of-message changes: judged by their net effect on the MTA's message *)
EndOk(s1, obs) ==
  LET mods == Only(obs, EndMods)
      neg  == \E i \in 1..Len(obs) : obs[i].k \in NegAns
  IN IF ~s1.fin.on THEN neg \/ mods = <<>>
     ELSE \/ neg
          \/ /\ s1.fin.hchg \/ Only(mods, HdrMods) = <<>>
             /\ MtaHdrs(s1, mods) = s1.fin.hdrs
             /\ IF s1.fin.repl THEN Cat(Only(mods, {"replbody"})) = s1.fin.body
                               ELSE Only(mods, {"replbody"}) = <<>>
             /\ LET f == Only(mods, {"chgfrom"})
                IN IF s1.fin.from = <<>> THEN f = <<>> ELSE Len(f) = 1 /\ f[1].a = s1.fin.from
             /\ LET q == Only(mods, {"quarantine"})
                IN IF s1.fin.quar = <<>> THEN q = <<>> ELSE Len(q) = 1 /\ q[1].a = s1.fin.quar
             /\ obs = <<>> \/ obs[Len(obs)].k \notin EndMods

MtaOk(s1, obs0) ==
  LET obs == Without(obs0, IF s1.ph = "end" THEN Ign ELSE {})
  IN /\ EndOk(s1, obs)
     /\ SeqOk(s1.out.mta, Without(obs, EndMods))

KidOk(s0, s1, i, obs) ==
  LET now == s1.kids[i].st
      drop == Ign \cup (IF now = "gone" THEN {"abort", "quit"} ELSE {})
      got == SelectSeq(Without(obs, drop), LAMBDA p : p.k # "macro" \/ p.s # {})
      exp == Without(s1.out.kids[i], drop)
      count(q, k) == Len(Only(q, {k}))
      quit == count(s1.out.kids[i], "quit")
  IN /\ exp = got
     /\ IF s1.ph = "end" /\ s0.ph # "end" /\ s0.kids[i].st = "up"           \* M12
        THEN count(obs, "quit") = quit
        ELSE quit > 0 => \E j \in 1..Len(obs) : obs[j].k \in {"quit", "eof"}
     /\ (now \in {"up", "nego"}) => ~\E j \in 1..Len(obs) : obs[j].k = "eof"

Match(s0, s1, o) ==
  /\ MtaOk(s1, NormSeq(o.mta))
  /\ \A i \in 1..s1.cfg.n : KidOk(s0, s1, i, NormSeq(o.kids[i]))

Report(s1, e, o, open) ==
  PrintT("@@MISMATCH " \o ToJson([trace |-> t, step |-> pos + 1, event |-> e, obs |-> o, open |-> open,
            exp |-> s1.out, fin |-> s1.fin,
            mta |-> MtaOk(s1, NormSeq(o.mta)),
            kids |-> [i \in 1..s1.cfg.n |-> KidOk(s, s1, i, NormSeq(o.kids[i]))],
            cmd |-> s1.cmd]))

Init == /\ t \in 1..Len(Traces)
        /\ pos = 0
        /\ s = Init0(CfgOf(Traces[t].cfg))
        /\ ok = TRUE

Next ==
  /\ ok
  /\ pos < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[pos + 1]
         s1 == StepAll(s, Ev(e))
         open == IF e.t = "end" /\ s1.ph = "end" THEN e.open ELSE <<>>     \* M12: all released
     IN IF Match(s, s1, e.obs) /\ open = <<>>
        THEN /\ pos' = pos + 1 /\ s' = s1 /\ ok' = TRUE /\ UNCHANGED t
        ELSE /\ Report(s1, e, e.obs, open)
             /\ ok' = FALSE /\ UNCHANGED <<t, pos, s>>

Spec == Init /\ [][Next]_vars

(* a state per accepted prefix; identity is (trace, position) *)
View == <<t, pos, ok>>
=============================================================================
