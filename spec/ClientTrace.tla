---------------------------- MODULE ClientTrace ----------------------------
(* Validates recorded sessions of a real filter against Client.Step.       *)
EXTENDS Client, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
SetOf(q) == {q[i] : i \in DOMAIN q}
Norm(p) == [k |-> p.k, a |-> p.a, s |-> SetOf(p.s)]
NormSeq(q) == [i \in DOMAIN q |-> Norm(q[i])]
Ev(e) == IF e.t = "mta" THEN [e EXCEPT !.p = Norm(@)]
         ELSE IF e.t = "ret" /\ "oa" \in DOMAIN e THEN [e EXCEPT !.oa = SetOf(@), !.op = SetOf(@)] ELSE e
CfgOf(c) == [c EXCEPT !.cbs = SetOf(@)]

VARIABLES t, pos, s, ok
vars == <<t, pos, s, ok>>

Flat(q) == FoldLeft(LAMBDA acc, p : acc \o (IF p.k = "replbody" THEN [i \in 1..Len(p.a) |-> Pk("replbody", <<p.a[i]>>)] ELSE <<p>>), <<>>, q)
ModK == {"addhdr", "inshdr", "chghdr", "chgfrom", "addrcpt", "addrcptpar", "delrcpt", "replbody"}
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

CtlArg(c) == IF c.k = "cb" /\ c.n = "neg" THEN [c EXCEPT !.a = <<SetOf(@[1]), SetOf(@[2])>>] ELSE c
CtlOk(xs, cs) == Len(xs) = Len(cs) /\ \A i \in 1..Len(xs) : xs[i] = CtlArg(cs[i])

IsPg(p) == p.k = "progress"
NoPg(q) == SelectSeq(q, LAMBDA p : ~IsPg(p))
NPg(q) == Len(q) - Len(NoPg(q))
(* What the MTA got is a prefix of what is due followed by the changes     *)
(* requested so far; all that is due has left unless a callback blocks.    *)
Due(s1) == s1.late \o Flat(s1.out.mta)
MtaOk(s1, q) ==
  LET obs == Flat(NoPg(q))
      due == Due(s1)
      verdicts == {i \in 1..Len(q) : ~IsPg(q[i]) /\ q[i].k \notin ModK}
  IN /\ Prefix(obs, due \o s1.buf)
     /\ ~Blocked(s1) => Len(obs) >= Len(due) /\ NPg(q) = s1.pg
     /\ NPg(q) <= s1.pg
     /\ \A i \in 1..Len(q), v \in verdicts : IsPg(q[i]) => i < v

Match(s1, o) ==
  /\ s1.gone \/ MtaOk(s1, NormSeq(o.mta))
  /\ CtlOk(s1.out.ctl, o.ctl)
  /\ s1.gone \/ o.eof = s1.out.eof
  /\ o.over = 0

Consume(s1, o) ==
  LET q == NormSeq(o.mta)
      n == Len(Flat(NoPg(q)))
      d == Due(s1)
  IN [s1 EXCEPT !.pg = IF NPg(q) > @ THEN 0 ELSE @ - NPg(q),
                !.late = IF s1.gone \/ n >= Len(d) THEN <<>> ELSE SubSeq(d, n + 1, Len(d)),
                !.buf = IF n <= Len(d) THEN @ ELSE SubSeq(@, n - Len(d) + 1, Len(@))]

Report(s1, e, o) ==
  PrintT("@@MISMATCH " \o ToJson([trace |-> t, step |-> pos + 1, event |-> e, obs |-> o, exp |-> s1.out, buf |-> s1.buf,
            mta |-> MtaOk(s1, NormSeq(o.mta)), ctl |-> CtlOk(s1.out.ctl, o.ctl), cmd |-> s1.cmd]))

Init == /\ t \in 1..Len(Traces) /\ pos = 0 /\ s = Init0(CfgOf(Traces[t].cfg)) /\ ok = TRUE

Next ==
  /\ ok
  /\ pos < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[pos + 1]
         s1 == Step(s, Ev(e))
     IN IF Match(s1, e.obs)
        THEN pos' = pos + 1 /\ s' = Consume(s1, e.obs) /\ ok' = TRUE /\ UNCHANGED t
        ELSE Report(s1, e, e.obs) /\ ok' = FALSE /\ UNCHANGED <<t, pos, s>>

Spec == Init /\ [][Next]_vars
View == <<t, pos, ok>>
=============================================================================
