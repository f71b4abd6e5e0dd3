------------------------------- MODULE Config -------------------------------
(* What a configuration of milter-manager means: the settings, the applicable *)
(* conditions and the milters that exist after its files have been loaded.    *)
(*                                                                            *)
(* A file is a sequence of statements of the configuration language.  Values  *)
(* are the texts of literals of that language; a setting holds its literal in *)
(* the form --show-config prints it.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- settings
StrKeys == {"security.effective_user", "security.effective_group", "manager.unix_socket_group", "manager.pid_file",
            "manager.custom_configuration_directory", "controller.unix_socket_group", "controller.connection_spec", "manager.connection_spec",
            "database.type", "database.name", "database.host", "database.path", "database.user", "database.password", "database.port",
            "package.platform", "package.options", "log.path", "log.syslog_facility"}
BoolKeys == {"manager.remove_unix_socket_on_create", "manager.remove_unix_socket_on_close", "manager.daemon",
             "controller.remove_unix_socket_on_create", "controller.remove_unix_socket_on_close", "security.privilege_mode", "log.use_syslog"}
IntKeys == {"manager.maintenance_interval", "manager.suspend_time_on_unacceptable", "manager.max_connections", "manager.max_file_descriptors",
            "manager.n_workers", "manager.packet_buffer_size", "manager.connection_check_interval", "manager.chunk_size",
            "manager.max_pending_finished_sessions"}
ModeKeys == {"manager.unix_socket_mode", "controller.unix_socket_mode"}
StatusKeys == {"manager.fallback_status", "manager.fallback_status_at_disconnect"}
Keys == StrKeys \cup BoolKeys \cup IntKeys \cup ModeKeys \cup StatusKeys \cup {"manager.event_loop_backend", "log.level"}
LogKeys == {"log.use_syslog", "log.syslog_facility"}    \* take effect when the main file has been loaded

Default(k) ==
  CASE k = "package.platform" -> "\"debian\""
    [] k = "manager.connection_spec" -> "\"inet:10025@[127.0.0.1]\""
    [] k \in {"manager.daemon", "security.privilege_mode"} -> "false"
    [] k \in BoolKeys -> "true"
    [] k = "manager.maintenance_interval" -> "10"
    [] k = "manager.suspend_time_on_unacceptable" -> "5"
    [] k = "manager.chunk_size" -> "65535"
    [] k \in IntKeys -> "0"
    [] k \in ModeKeys -> "0660"
    [] k = "manager.fallback_status" -> "\"accept\""
    [] k = "manager.fallback_status_at_disconnect" -> "\"temporary-failure\""
    [] k = "manager.event_loop_backend" -> "\"glib\""
    [] k = "log.level" -> "\"default\""
    [] OTHER -> "nil"

\* a status may be written in several ways
Status(v) ==
  CASE v \in {"\"accept\"", "\"ACCEPT\"", ":accept"} -> "\"accept\""
    [] v \in {"\"reject\"", "\"Reject\"", ":reject"} -> "\"reject\""
    [] v \in {"\"temporary-failure\"", "\"temporary_failure\"", ":temporary_failure"} -> "\"temporary-failure\""
    [] v \in {"\"discard\"", ":discard"} -> "\"discard\""
    [] OTHER -> "!inv"

Spec == {"\"inet:1000\"", "\"inet:10026@localhost\"", "\"inet6:2525@[::1]\"", "\"unix:/tmp/a b.sock\"", "\"unix:/var/run/x.sock\"", "\"inet:9999@[127.0.0.1]\"", "\"inet:10025@[127.0.0.1]\""}
SpecValue(v) == IF v \in Spec THEN v ELSE "!exc"

\* the value a setting gets from a literal; "!inv" when the literal is refused
\* as not being one of the available ones (the rest of that file is ignored),
\* "!exc" when it fails otherwise (the rest of all files is)
Value(k, v) ==
  CASE k \in {"controller.connection_spec", "manager.connection_spec"} -> IF v = "nil" THEN v ELSE SpecValue(v)
    [] k = "log.level" -> (CASE v \in {"nil", "\"\"", "\"default\""} -> "\"default\""
                             [] v = "\"all\"" -> "\"critical|error|warning|message|info|debug|trace|statistics|profile\""
                             [] v = "\"bogus\"" -> "!exc" [] OTHER -> v)
    [] k = "log.path" -> (CASE v = "\"-\"" -> "nil" [] v = "\"/nonexistent/x.log\"" -> "!exc" [] OTHER -> v)
    [] k = "security.privilege_mode" -> IF v \in {"true", "\"true\""} THEN "true" ELSE IF v \in {"false", "\"false\""} THEN "false" ELSE "!inv"
    [] k = "manager.event_loop_backend" -> IF v \in {"\"glib\"", "\"libev\""} THEN v ELSE "!exc"
    [] k \in BoolKeys -> IF v \in {"nil", "false"} THEN "false" ELSE "true"
    [] k = "manager.maintenance_interval" -> IF v \in {"nil", "0"} THEN "nil" ELSE IF v = "\"x\"" THEN "!exc" ELSE v
    [] k = "manager.chunk_size" -> IF v \in {"nil", "0", "70000"} THEN "65535" ELSE IF v = "\"x\"" THEN "!exc" ELSE v
    [] k \in IntKeys -> IF v = "nil" THEN Default(k) ELSE IF v = "\"x\"" THEN "!exc" ELSE v
    [] k \in ModeKeys -> IF v \in {"nil", "\"0640\""} THEN "!exc" ELSE v
    [] k = "manager.fallback_status" -> Status(v)
    [] k = "manager.fallback_status_at_disconnect" -> IF Status(v) = "!inv" THEN "!exc" ELSE Status(v)
    [] OTHER -> v

\* ----------------------------------------------------------------- milters
MKeys == {"connection_spec", "description", "enabled", "fallback_status", "evaluation_mode", "command", "command_options", "user_name",
          "connection_timeout", "writing_timeout", "reading_timeout", "end_of_message_timeout"}
MDefault(k) ==
  CASE k = "enabled" -> "true" [] k = "evaluation_mode" -> "false" [] k = "fallback_status" -> "\"accept\""
    [] k \in {"connection_timeout", "end_of_message_timeout"} -> "297.0"
    [] k \in {"writing_timeout", "reading_timeout"} -> "7.0"
    [] OTHER -> "nil"
Timeouts == {"connection_timeout", "writing_timeout", "reading_timeout", "end_of_message_timeout"}
MValue(k, v) ==
  CASE k = "connection_spec" -> SpecValue(v)
    [] k = "fallback_status" -> Status(v)
    [] k \in {"enabled", "evaluation_mode"} -> IF v \in {"nil", "false"} THEN "false" ELSE "true"
    [] k \in Timeouts -> (CASE v \in {"nil", "\"x\""} -> "!exc" [] v = "5" -> "5.0" [] v = "0" -> "0.0" [] v = "60" -> "60.0" [] OTHER -> v)
    \* the words are quoted for a shell
    [] k = "command_options" -> (CASE v = "[\"a b\", \"c\"]" -> "\"a\\\\ b c\"" [] v = "[\"--x\", \"-y\"]" -> "\"--x -y\"" [] v = "[]" -> "\"\"" [] OTHER -> v)
    [] OTHER -> v

NewMilter(n) == [n |-> n, f |-> [k \in MKeys |-> MDefault(k)], c |-> <<>>]

\* s.ss: settings, s.ms: milters in order, s.cs: conditions in order, s.lg: log settings not in effect yet
Init0 == [ss |-> [k \in Keys |-> Default(k)], ms |-> <<>>, cs |-> <<>>, lg |-> ("log.use_syslog" :> "true" @@ "log.syslog_facility" :> "\"mail\"")]

RECURSIVE Find(_, _)
Find(q, n) == IF q = <<>> THEN 0 ELSE IF q[Len(q)].n = n THEN Len(q) ELSE Find(SubSeq(q, 1, Len(q) - 1), n)
Without(q, n) == SelectSeq(q, LAMBDA x: x.n # n)
Names(q) == [i \in 1..Len(q) |-> q[i].n]

\* ------------------------------------------------------------ definitions
\* re-opening a definition starts from what was defined so far
RECURSIVE Body(_, _, _)
Body(m, b, cs) ==
  IF b = <<>> THEN [m |-> m, e |-> ""]
  ELSE LET h == Head(b) IN
       CASE h.k = "add" -> IF Find(cs, h.v) = 0 THEN [m |-> m, e |-> "inv"] ELSE Body([m EXCEPT !.c = Append(@, h.v)], Tail(b), cs)
         [] h.k = "conds" -> IF \E i \in 1..Len(h.l): Find(cs, h.l[i]) = 0 THEN [m |-> m, e |-> "inv"] ELSE Body([m EXCEPT !.c = h.l], Tail(b), cs)
         [] h.k = "raise" -> [m |-> m, e |-> "exc"]
         [] OTHER -> LET x == MValue(h.k, h.v) IN
                     IF x = "!inv" THEN [m |-> m, e |-> "inv"] ELSE IF x = "!exc" THEN [m |-> m, e |-> "exc"]
                     ELSE Body([m EXCEPT !.f[h.k] = x], Tail(b), cs)

Milter(s, n, b) ==
  LET i == Find(s.ms, n)
      r == Body(IF i = 0 THEN NewMilter(n) ELSE s.ms[i], b, s.cs)
  IN IF r.e # "" THEN [s |-> s, e |-> r.e]
     ELSE [s |-> [s EXCEPT !.ms = Append(Without(s.ms, n), r.m)], e |-> ""]

RECURSIVE Each(_, _, _)
Each(s, ns, b) == IF ns = <<>> THEN [s |-> s, e |-> ""]
                  ELSE LET r == Milter(s, Head(ns), b) IN IF r.e # "" THEN r ELSE Each(r.s, Tail(ns), b)

Cond(s, n, d) ==
  LET i == Find(s.cs, n)
      c == [n |-> n, d |-> IF d # "" THEN d ELSE IF i = 0 THEN "nil" ELSE s.cs[i].d]
  IN [s EXCEPT !.cs = Append(Without(s.cs, n), c)]

Set(s, k, v) ==
  LET x == Value(k, v) IN
  IF x = "!inv" THEN [s |-> s, e |-> "inv"] ELSE IF x = "!exc" THEN [s |-> s, e |-> "exc"]
  ELSE [s |-> IF k \in LogKeys THEN [s EXCEPT !.lg[k] = x] ELSE [s EXCEPT !.ss[k] = x], e |-> ""]

\* ------------------------------------------------------------------- files
Syntax(st) == \E i \in 1..Len(st): st[i].op = "syntax"

RECURSIVE Run(_, _, _), Files(_, _, _)
Load(s, f, P) ==
  IF Syntax(P[f]) THEN [s |-> s, e |-> "exc"]
  ELSE LET r == Run(s, P[f], P) IN IF r.e = "inv" THEN [r EXCEPT !.e = ""] ELSE r

Files(s, fs, P) == IF fs = <<>> THEN [s |-> s, e |-> ""]
                   ELSE LET r == Load(s, Head(fs), P) IN IF r.e # "" THEN r ELSE Files(r.s, Tail(fs), P)

Exec(s, c, P) ==
  CASE c.op = "set" -> Set(s, c.k, c.v)
    [] c.op = "milter" -> Milter(s, c.n, c.b)
    [] c.op = "remove" -> [s |-> [s EXCEPT !.ms = Without(s.ms, c.n)], e |-> ""]
    [] c.op = "removeall" -> [s |-> [s EXCEPT !.ms = <<>>], e |-> ""]
    [] c.op = "each" -> Each(s, Names(s.ms), c.b)
    [] c.op = "cond" -> [s |-> Cond(s, c.n, c.d), e |-> ""]
    [] c.op = "load" -> IF c.fs = <<>> THEN [s |-> s, e |-> "exc"] ELSE Files(s, c.fs, P)
    [] c.op = "loadif" -> Files(s, c.fs, P)
    [] c.op = "raise" -> [s |-> s, e |-> "exc"]
    [] OTHER -> [s |-> s, e |-> ""]

Run(s, st, P) == IF st = <<>> THEN [s |-> s, e |-> ""]
                 ELSE LET r == Exec(s, Head(st), P) IN IF r.e # "" THEN r ELSE Run(r.s, Tail(st), P)

\* the main file: a refused value ends it, and then the log settings keep their defaults
Main(P) ==
  LET f == "milter-manager.conf"
      r == IF Syntax(P[f]) THEN [s |-> Init0, e |-> "exc"] ELSE Run(Init0, P[f], P)
  IN IF r.e = "" THEN [r.s EXCEPT !.ss = [k \in Keys |-> IF k \in LogKeys THEN r.s.lg[k] ELSE @[k]]] ELSE r.s

\* -------------------------------------------- the custom file (XML), loaded last
XText(t) == "\"" \o t \o "\""
RECURSIVE XBody(_)
XBody(f) == IF f = <<>> THEN <<>>
            ELSE LET h == Head(f) IN
                 <<[k |-> h.k, v |-> IF h.k \in {"enabled", "evaluation_mode"} THEN (IF h.t = "true" THEN "true" ELSE "false") ELSE XText(h.t)]>> \o XBody(Tail(f))
RECURSIVE Custom(_, _)
Custom(s, x) ==
  IF x = <<>> THEN s
  ELSE LET h == Head(x)
           r == CASE h.op = "set" -> Set(s, h.k, XText(h.t))
                  \* such a definition is complete as to its conditions
                  [] h.op = "milter" -> Milter(s, h.n, XBody(h.f) \o <<[k |-> "conds", l |-> h.c]>>
                                               \o (IF \E i \in 1..Len(h.f): h.f[i].k = "command" THEN
                                                     IF \E i \in 1..Len(h.f): h.f[i].k = "command_options" THEN <<>> ELSE <<[k |-> "command_options", v |-> "nil"]>>
                                                   ELSE <<>>))
                  [] OTHER -> [s |-> s, e |-> "exc"]
       IN IF r.e # "" THEN s ELSE Custom(r.s, Tail(x))

Config(P, x) == Custom(Main(P), x)

\* ------------------------------------------------------------ the dump
\* what --show-config prints, as a file
RECURSIVE DumpSettings(_, _), DumpBody(_, _)
DumpSettings(s, ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks: TRUE IN <<[op |-> "set", k |-> k, v |-> s.ss[k]]>> \o DumpSettings(s, ks \ {k})
DumpBody(m, ks) == IF ks = {} THEN <<[k |-> "conds", l |-> m.c]>> ELSE LET k == CHOOSE k \in ks: TRUE IN <<[k |-> k, v |-> m.f[k]]>> \o DumpBody(m, ks \ {k})
Dump(s) == DumpSettings(s, Keys)
           \o [i \in 1..Len(s.cs) |-> [op |-> "cond", n |-> s.cs[i].n, d |-> s.cs[i].d]]
           \o [i \in 1..Len(s.ms) |-> [op |-> "milter", n |-> s.ms[i].n, b |-> DumpBody(s.ms[i], MKeys)]]

\* the printed configuration means the same configuration (if every milter has its required connection specification)
Complete(s) == \A i \in 1..Len(s.ms): s.ms[i].f["connection_spec"] # "nil"
RoundTrip(s) == Complete(s) => LET t == Main("milter-manager.conf" :> Dump(s)) IN t.ss = s.ss /\ t.ms = s.ms /\ t.cs = s.cs
=============================================================================
