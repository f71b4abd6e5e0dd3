---------------------------- MODULE ConfigTrace ----------------------------
(* Validates what the real milter-manager says about its configuration,     *)
(* after histories of configuration files, against Config.                  *)
EXTENDS Config, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, pos, ok
vars == <<t, pos, ok>>

\* settings that a running manager has read only in part when it reports
Partly == LogKeys
Fn(f) == [k \in DOMAIN f |-> f[k]]

\* the set of things that differ
Settings(s, o, ks) == {k \in ks: k \notin DOMAIN o.v \/ o.v[k] # s.ss[k]}
Milters(s, o, ks) ==
  IF Names(s.ms) # [i \in 1..Len(o.ms) |-> o.ms[i].n] THEN {"milters"}
  ELSE UNION {{"milter." \o k : k \in {k \in ks: k \notin DOMAIN o.ms[i].f \/ o.ms[i].f[k] # s.ms[i].f[k]}}
              \cup (IF o.ms[i].c # s.ms[i].c THEN {"milter.applicable_conditions"} ELSE {}) : i \in 1..Len(s.ms)}
Conds(s, o) == IF s.cs # [i \in 1..Len(o.cs) |-> [n |-> o.cs[i].n, d |-> o.cs[i].d]] THEN {"conditions"} ELSE {}

XKeys == {"connection_spec", "description", "enabled", "fallback_status", "evaluation_mode", "command", "command_options"}

Diff(s, r) ==
  IF r.died THEN {"died"}
  ELSE CASE r.how = "show" -> Settings(s, r.obs, Keys) \cup Milters(s, r.obs, MKeys) \cup Conds(s, r.obs)
    [] r.how = "back" -> IF Complete(s) THEN Settings(s, r.obs, Keys) \cup Milters(s, r.obs, MKeys) \cup Conds(s, r.obs) ELSE {}
    [] r.how = "reload" -> Settings(s, r.obs, Keys \ Partly) \cup Milters(s, r.obs, MKeys) \cup Conds(s, r.obs)
    \* what the controller tells: milters and conditions
    [] r.how = "get" -> Milters(s, r.obs, XKeys) \cup Conds(s, r.obs)

Expected(s) == [v |-> s.ss, ms |-> s.ms, cs |-> s.cs]

Init == t \in 1..Len(Traces) /\ pos = 0 /\ ok = TRUE
Next ==
  /\ ok
  /\ pos < Len(Traces[t].runs)
  /\ LET r == Traces[t].runs[pos + 1]
         s == Config(r.files, r.xml)
         d == Diff(s, r)
     IN /\ Assert(RoundTrip(s), "the printed configuration does not mean the same")
        /\ IF d = {} THEN pos' = pos + 1 /\ UNCHANGED <<t, ok>>
           ELSE /\ PrintT("@@MISMATCH " \o ToJson([trace |-> t, step |-> pos + 1, differs |-> d, exp |-> Expected(s)]))
                /\ ok' = FALSE /\ UNCHANGED <<t, pos>>
Spec0 == Init /\ [][Next]_vars
=============================================================================
