"""Single source of properties.jsonl (run after editing)."""
import json, os
CH = "milter/manager/milter-manager-children.c"
LD = "milter/manager/milter-manager-leader.c"
SC = "milter/server/milter-server-context.c"
CC = "milter/client/milter-client-context.c"
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

NOTEST = ("The C suite that once covered the manager is not built here (it needs Cutter); the Ruby "
          "suites exercise bindings, codecs and single client/server contexts, never a manager with "
          "several milters and a live MTA. ")
SOCK = ["MTA-side and milter-side milter-protocol sockets of the running daemon"]

p("M01", "The MTA's verdict is the most severe verdict of the milters",
  "For every connect, HELO, MAIL, RCPT, DATA or unknown command forwarded to several milters at once, the MTA's reply "
  "carries the most severe verdict among the milters' answers (discard > reject > temporary failure > continue > accept), "
  "in whatever order the answers arrive and however many milters there are. A milter that is excluded, or that did not ask for the "
  "command, contributes nothing. The reply is sent only after every milter that was asked has answered or failed.",
  ["schedules", "inputs", "configurations"],
  "all vectors of child verdicts, all arrival orders of the answers, all numbers of children, all commands",
  NOTEST + "The verdict depends on the arrival order through a shared reply state, so a handful of samples cannot settle it.",
  [CH, "milter/core/milter-protocol.c", LD],
  [("status merge on each child reply", CH + ": compile_reply_status / milter_status_compare"),
   ("reply queue, drained by child replies", CH + ": reply_queues, cb_continue/cb_accept/...")],
  [("reply_queues", "children still owing an answer for the current command", CH),
   ("reply_statuses", "running verdict of the current command", CH)], SOCK)

p("M02", "Exactly one verdict per MTA command, in order, and none unasked",
  "Every command of the MTA that expects an answer gets exactly one final answer, after the command and before the answer to "
  "any later command; macro definitions, abort and quit get none, and commands whose reply the MTA waived get none. "
  "No milter can cause a second or an unsolicited final answer, whatever it sends and whenever it sends it, and no command stays "
  "unanswered once every milter that was asked has answered, failed or timed out.",
  ["schedules", "histories", "fault_sequences"],
  "all command sequences an MTA can send over several messages of a session, all answers, failures and arrival orders",
  NOTEST + "Exactly-once answering is a property of whole histories with failures in them.",
  [CH, LD, CC, SC],
  [("reply queue", CH), ("leader reply emission", LD + ": cb_continue.. -> milter_client_context reply")], None, SOCK)

p("M03", "SMTP reply text always agrees with the verdict it accompanies",
  "When a milter answers with its own SMTP reply code and text, the MTA receives that code and text unchanged exactly when the "
  "final verdict of the command has the same class (4xx with temporary failure, 5xx with reject); if a different class wins, "
  "the MTA gets the winning verdict without the loser's text. Text given for one command never appears in the answer to another command.  (Text of several lines counts line by line.)",
  ["inputs", "schedules", "histories"],
  "all mixtures of plain and coded answers over children, commands and arrival orders, all reply texts",
  NOTEST + "Mixtures of coded and plain answers across milters are never run.",
  [CH, CC, LD, "milter/core/milter-reply-decoder.c"],
  [("reply code bookkeeping", CH + ": cb_reply_code, reply_code/reply_extended_code/reply_message")], None, SOCK)

p("M04", "A milter in evaluation mode never influences the mail",
  "A milter configured in evaluation mode is consulted like any other, but whatever it answers, modifies, quarantines, or however it fails, "
  "the MTA receives the same verdicts, reply texts, header, body and envelope changes as if that milter had let the mail pass unchanged, and the "
  "other milters see the same commands and message content.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all behaviours of the evaluation-mode milter at every stage, in every position among other milters",
  NOTEST + "Non-interference is a property of pairs of executions.",
  [CH, "milter/manager/milter-manager-child.c", "milter/manager/milter-manager-egg.c"],
  [("evaluation-mode filters in reply and modification callbacks", CH)], None, SOCK)

p("M05", "A failing milter counts as its configured fallback and nothing more",
  "When a milter cannot be reached, closes its connection, sends something illegal or exceeds one of its timeouts, the session goes on as if "
  "that milter had answered the outstanding command with its configured fallback status; it is not consulted again in that session, and "
  "the other milters and their verdicts are unaffected.",
  ["fault_sequences", "schedules", "configurations"],
  "all failure kinds x all protocol points x all fallback statuses x positions among other milters",
  NOTEST + "Faults at each protocol point are not injected by any test.",
  [CH, SC, "milter/manager/milter-manager-child.c"],
  [("fallback on error/timeout/finish", CH + ": cb_error, cb_*_timeout, expire_child, fallback_status")], None, SOCK)

p("M06", "A milter is consulted exactly as long as its own verdicts allow",
  "A milter that accepts or rejects the connection (at connect or HELO) is not consulted again in that session; one that accepts, rejects or "
  "temporarily fails at MAIL or DATA, or accepts at RCPT, is not consulted again for that message but is for the next; one that accepts while "
  "the message content is transferred sees no more of that message. A recipient-stage rejection only concerns that recipient. "
  "All other milters continue to be consulted, at every stage they asked for, in configuration order where stages are sequential.",
  ["histories", "inputs", "configurations"],
  "all verdict histories of all children over several messages",
  NOTEST + "Who is asked next depends on the whole history of each milter.",
  [CH, SC],
  [("processing flag and quit per child", CH + ": milter_server_context_set_processing_message, milter_server_context_quit")],
  [("processing_message", "child takes part in the current message", SC)], SOCK)

p("M07", "A final negative verdict stops every milter for that message",
  "When the MTA is told that a message is rejected, temporarily failed or discarded (other than one recipient being refused), every milter "
  "still taking part in the message is told to abort it, and none is given further content or a change to make; a later message of the same session is processed afresh.",
  ["histories", "schedules"],
  "all points at which a negative verdict can win, all sets of participating children",
  NOTEST, [CH, LD], [("abort on negative final verdict", CH + ": milter_manager_children_abort from reply emission")], None, SOCK)

p("M08", "Each milter sees the message as modified by the milters before it",
  "Header, end-of-header, body and end-of-message are given to the milters one after another in configuration order; each milter receives exactly the header fields (in order, with names and values) "
  "and body bytes that result from applying, to the MTA's message, all header and body changes of the milters before it.",
  ["inputs", "histories", "configurations"],
  "all messages, all sequences of header/body modifications by any subset of children, all verdicts that let processing go on",
  NOTEST, [CH, "milter/core/milter-headers.c"],
  [("header and body carried between children", CH + ": headers, body, cb_add_header.., send_next_*"),
   ("header list edits", "milter/core/milter-headers.c")], None, SOCK)

p("M09", "The changes sent to the MTA reproduce the milters' combined result",
  "When a message passes, the header, body, envelope-sender, recipient and quarantine changes the manager sends at end of message, applied by the MTA to the message it sent, "
  "give exactly the header fields, body and envelope that the milters' changes produce when applied one after another; if no milter changed something, no change to it is sent, and changes "
  "are sent only after the last milter finished and before the final verdict (recipient changes and progress may be sent earlier).",
  ["inputs", "histories"],
  "all messages (including repeated header names, differing in case) and all modification sequences by several milters",
  NOTEST + "The manager computes a difference between two header lists; equality of net effect over all lists is beyond examples.",
  [CH, "milter/core/milter-headers.c", CC],
  [("header diff", CH + ": emit_header_changes_signal"), ("body replacement", CH + ": emit_replace_body_signal")], None, SOCK)

p("M10", "Body bytes survive unchanged whatever their size and chunking",
  "The body each milter receives, and the body the MTA is told to use when it was replaced, are byte-for-byte the body that was sent, whatever "
  "the number and sizes of the chunks, whatever the bytes, and whether or not the message is so large that it is kept in a temporary file; the chunks the manager cuts itself (for milters that did not see the first ones, and for replaced bodies) never exceed the configured chunk size.",
  ["inputs", "configurations"],
  "all bodies and chunkings, chunk sizes, bodies across the in-memory threshold",
  NOTEST, [CH, SC, CC], [("body buffering, file spill and re-chunking", CH + ": write_body, send_body_to_child, emit_replace_body*")], None, SOCK)

p("M11", "Messages of one session do not leak into each other",
  "After a message ends (verdict, abort by the MTA, or a new MAIL), nothing of it - verdicts, reply texts, header or body changes, sender change, quarantine, message-stage macros, exclusions for that message - "
  "affects what the MTA or any milter sees for later messages of the session, while connection-stage facts persist; an abort from the MTA reaches every milter taking part in the message.",
  ["histories"], "all sequences of messages and aborts at any point in one session",
  NOTEST, [CH, LD, SC, CC], [("disposal of per-message data", CH + ": dispose_message_related_data"),
                             ("abort", CH + ": milter_manager_children_abort")], None, SOCK)

p("M12", "Every milter is told when the session ends, and the session is released",
  "When the MTA quits or drops the connection at any point, or the manager gives up the session, every milter connection still open gets a quit (or is closed) and no more commands, the session stops being counted as "
  "active and its sockets are closed; the manager keeps serving other and later sessions.",
  ["crash_points", "schedules", "fault_sequences"],
  "MTA disconnect or quit at every protocol point with every set of outstanding child answers",
  NOTEST, [CH, LD, "milter/manager/milter-manager.c", "milter/client/milter-client.c"],
  [("quit propagation", CH + ": milter_manager_children_quit"), ("session accounting", "milter/client/milter-client.c")], None,
  SOCK + ["/proc/<pid>/fd of the daemon"])

p("M13", "Concurrent sessions do not influence each other",
  "Any number of simultaneous sessions behave, for their MTA connection and their milter connections, exactly as each would alone, for every interleaving of their traffic and failures.",
  ["schedules"], "all interleavings of the steps of several sessions",
  NOTEST, ["milter/manager/milter-manager.c", LD, CH, "milter/client/milter-client.c"],
  [("one leader and children set per session", "milter/manager/milter-manager.c")], None, SOCK)

p("M14", "Negotiation gives the MTA and each milter only what they can use",
  "The protocol version and the actions offered to each milter never exceed what the MTA offered; the actions and skipped steps announced to the MTA cover what "
  "every usable milter needs: an action is announced if some milter requested it, a step is skipped only if every milter skips it, and each milter gets exactly the commands it did not opt out of and answers are awaited only where it did not opt out of answering.",
  ["configurations", "inputs"], "all MTA offers x all per-child option answers x numbers of children",
  NOTEST, [CH, "milter/core/milter-option.c", SC],
  [("option merge", CH + ": reply_negotiate, milter_option_merge"), ("step checks", CH + ", " + SC)], None, SOCK)

p("M15", "Each milter receives the MTA's macros it is entitled to, at each stage",
  "The macro definitions the MTA sends for a command reach each milter before that command with the same names and values, restricted to the names the milter requested for that stage "
  "when it requested any; no milter sees macros of a stage that were not defined for it, and macros sent for a later milter are those of the MTA for that stage.",
  ["inputs", "histories", "configurations"], "all macro tables, per-stage symbol requests and command histories",
  NOTEST, [CH, SC, LD, "milter/core/milter-macros-requests.c"],
  [("macro forwarding", CH + ": milter_manager_children_define_macro"), ("symbol filter", SC)], None, SOCK)

p("M16", "How bytes are split into reads never matters",
  "For every way the byte streams from the MTA and from the milters are cut into pieces or glued together in transit, all peers see the same packets in the same order.",
  ["schedules", "inputs"], "all fragmentations and coalescings of the same byte streams",
  "Codec tests feed a few fixed splits to decoders; the daemon's readers, writers and dispatch are not run under fragmentation.",
  ["milter/core/milter-decoder.c", "milter/core/milter-reader.c", "milter/core/milter-writer.c", "milter/core/milter-agent.c"],
  [("incremental decoder", "milter/core/milter-decoder.c")], None, SOCK)

p("M17", "Changes a milter may not make are never made",
  "A header, body, envelope or quarantine change from a milter takes effect only if the milter sends it while answering end-of-message and negotiated the action; otherwise it is refused, never reaches the "
  "MTA or another milter, and does not disturb the other milters' answers.",
  ["inputs", "histories"], "all modification packets at all protocol points under all negotiated option sets",
  NOTEST, [SC, CH, CC], [("state and action checks", SC + ", " + CC)], None, SOCK)

p("M18", "No input from a peer stops the manager from serving",
  "Whatever bytes an MTA or a milter sends - unknown commands, truncated, oversized or malformed packets, packets out of order - the manager process keeps running, "
  "other sessions are undisturbed and new sessions are served, no memory is misused, and when the MTA's connection ends so do those of its milters.",
  ["inputs", "fault_sequences"], "all byte strings at all protocol points on both sides",
  "Decoder tests cover a few malformed packets in isolation, not a live manager.",
  ["milter/core/milter-command-decoder.c", "milter/core/milter-reply-decoder.c", LD, CH, SC],
  [("decoder error -> session teardown", "milter/core/milter-agent.c, " + LD)], None, SOCK)

p("C01", "A milter's decisions are put on the wire exactly as documented",
  "For a milter written with the client library (and its libmilter-compatible API), the status each callback returns determines the packet sent - continue, accept, reject, temporary failure, discard, skip, or nothing - once per command that expects an answer; "
  "an unset callback means continue, and reject/temporary failure become the coded reply set earlier for that command when its class matches.",
  ["inputs", "histories", "configurations"], "all callback/status/reply-code combinations over whole sessions and negotiated options",
  "The C tests are not run; the Ruby suites sample single callbacks.",
  [CC, "libmilter/libmilter-compatible.c", "milter/client/milter-client.c"],
  [("status to packet", CC + ": reply handlers"), ("callback mapping", "libmilter/libmilter-compatible.c")], None, ["libmilter client socket"])

p("C02", "A milter's changes are sent only when legal, in order, before the verdict",
  "A change requested through the client library is sent only if it was requested during end-of-message, its action was negotiated and its arguments are valid - nothing is sent otherwise, and the call reports failure; accepted changes appear in the order requested "
  "(a quarantine request right before the verdict), complete, before the final verdict of that message, with progress notifications able to overtake them; changes of an aborted message are never sent.",
  ["inputs", "histories", "configurations"], "all sequences of modification calls in all callbacks under all negotiated action sets and buffer sizes",
  "Ruby suites check single calls.", [CC, "libmilter/libmilter-compatible.c"],
  [("validation and packet buffering", CC + ": milter_client_context_add_header..., flush")], None, ["libmilter client socket"])

p("C03", "Only valid SMTP reply codes are accepted, and their text is sent intact",
  "Setting a reply succeeds exactly for a 4xx or 5xx code whose extended code, if any, is well-formed and of the same class, and the reply then sent carries exactly that code, extended code and text, every line of a multi-line text being prefixed with the codes; it is used for the next negative verdict of its class only, and a refused setting leaves the earlier reply in force.",
  ["inputs"], "all codes, extended codes and message texts, including multi-line",
  "A few examples are tested.", [CC, "libmilter/libmilter-compatible.c"], [("validation", CC + ": milter_client_context_set_reply")], None, ["libmilter client socket"])

p("C04", "A milter's callbacks see exactly what the MTA sent",
  "A milter written with the client library gets each registered callback exactly once per command, in order, with the arguments and body bytes the MTA sent and with the macros the MTA defined for this connection and this message - never those of another session or an earlier message; "
  "abort is called only for a message in progress, close exactly once at the end, private data stays with its session, and whatever an MTA does - including closing at any time - ends only its own session.",
  ["inputs", "histories", "crash_points"], "all sessions, registered callback sets, postponed answers and disconnects",
  "The C tests are not run; the Ruby suites sample single callbacks.",
  [CC, "libmilter/libmilter-compatible.c", "milter/core/milter-protocol-agent.c", "milter/core/milter-command-decoder.c", "milter/client/milter-client.c"],
  [("callback dispatch", CC + ": cb_decoder_*"), ("macros", "milter/core/milter-protocol-agent.c")], None, ["libmilter client socket"])

p("K01", "Which milters are consulted is decided by their conditions, per session",
  "A milter with applicable conditions is consulted only as long as none of its conditions' stoppers stops it: one that stops it at connect or HELO ends its part in the session (as if it had accepted), one that stops it at MAIL, DATA or in the content its part in this message, "
  "one that stops it at RCPT hides only that recipient from it. Stoppers are asked in order before each command, with exactly that command's values and the macros known so far for that milter, and may look at the other milters' state and verdicts; one that raises an error stops nothing. "
  "A condition never affects other milters, sessions or later messages, and the conditions that come with milter-manager (S25R, Remote Network, Authenticated, Unauthenticated, Trust, stress) mean what the manual says.",
  ["inputs", "configurations", "histories"], "all condition outcomes at each stage",
  NOTEST, ["binding/ruby/lib/milter/manager.rb", LD, CH, SC, "data/applicable-conditions"], [("stop_on_* connectors", "binding/ruby/lib/milter/manager.rb; " + SC + ": stop-on signals")], None, SOCK)

p("K02", "Reloading the configuration is atomic for sessions",
  "After a reload (a hangup signal or a request of the controller) every session that begins is served exactly as if the manager had been started with the configuration files as they now are - with a file that is broken, up to its first broken statement, as at a start. "
  "A session that was already running keeps the milters, their order and their settings, and the applicable conditions it started with until it ends, whatever is reloaded meanwhile and however often; no reload disturbs a session or keeps the manager from serving. (Settings of the manager as a whole - its fallback, chunk size - are not part of this.)",
  ["schedules", "histories", "configurations"], "all interleavings of reloads with the steps of running sessions",
  NOTEST, ["milter/manager/milter-manager-configuration.c", "milter/manager/milter-manager-controller-context.c", "milter/manager/milter-manager-main.c"],
  [("reload", "milter/manager/milter-manager-configuration.c: milter_manager_configuration_reload")], None, SOCK + ["controller socket", "SIGHUP"])

p("K03", "The configuration is what its files say",
  "The settings, milters (with their order, settings and conditions) and applicable conditions of the manager are exactly what the statements of its files mean: a later statement wins over an earlier one, each setting changes only itself, re-opening a milter or condition changes only what it names, "
  "a file with a refused value counts up to that statement, files are loaded in the order of the load statements and the custom (XML) configuration last. It depends on nothing else: a reload gives exactly what a fresh start with the same files gives, whatever was loaded before, "
  "what --show-config prints is a configuration that means the same when it is loaded, and the controller reports the same milters and conditions.",
  ["configurations", "histories"], "all sequences of statements over all settings, all histories of reloads",
  "Configuration tests check settings singly.", ["binding/ruby/lib/milter/manager.rb", "binding/ruby/lib/milter/client/configuration.rb", "milter/manager/milter-manager-egg.c", "milter/manager/milter-manager-configuration.c", "milter/manager/milter-manager-controller-context.c"],
  [("merge", "milter/manager/milter-manager-egg.c: milter_manager_egg_merge"), ("clear", "milter/manager/milter-manager-configuration.c: clear_*")], None, ["--show-config", "configuration.dump", "controller get-configuration"])

p("D01", "Graceful shutdown finishes every session that was accepted",
  "Told to leave (SIGTERM or SIGINT), the manager refuses every later connection and closes those it has not begun to serve; it serves every session that is already running to its normal end, message after message, as if nothing had happened, "
  "and exits with success once the last one ended - not before, and not never. It does so with one process and with worker processes, where each serves its own sessions to their end; over sockets of both families, and whatever was reloaded before.",
  ["schedules", "crash_points"], "a terminate request at every point of any set of running sessions",
  NOTEST, ["milter/client/milter-client.c", "milter/manager/milter-manager-main.c"], [("drain", "milter/client/milter-client.c: shutdown, n_processing_sessions")], None, SOCK + ["process exit status"])

p("D02", "The manager's files appear, and go, exactly as configured",
  "A manager that has started listens on its socket, which has exactly the configured mode, and its pid file contains its process id. It takes the place of a socket an earlier run left behind if manager.remove_unix_socket_on_create says so and otherwise refuses to start with a failure status, leaving what it found untouched. "
  "Nothing it does while it runs removes its socket or pid file; when it has left, its pid file is gone and its socket is gone if and only if manager.remove_unix_socket_on_close, as of the last load of the configuration, says so.",
  ["configurations", "histories"], "all these settings, all remains of an earlier run, all histories of reloads and sessions before the end",
  NOTEST, ["milter/client/milter-client.c", "milter/core/milter-connection.c", "milter/manager/milter-manager-main.c", "milter/manager/milter-manager.c"],
  [("cleanup", "milter/client/milter-client.c: cleanup_unix_socket_on_close; milter_client_run: pid file")], None, ["the file system", "process exit status"])

p("D03", "A full manager lets nobody down: waiting connections are served in order",
  "With manager.max_connections set, no connection begins to be served while that many are. The others wait: their sessions begin in the order they came, at the latest when manager.suspend_time_on_unacceptable seconds have passed since the manager was found full and there is room again. "
  "Running sessions are served without delay meanwhile, a waiting connection whose MTA gave up costs nobody anything, a reload changes both settings for what comes, and no waiting connection waits for ever.",
  ["schedules", "histories", "configurations"], "all limits and suspend times, all orders of arrivals, ends, reloads and passing time",
  NOTEST, ["milter/client/milter-client.c"], [("limit", "milter/client/milter-client.c: accept_connection_fd, suspend_accept")], None, SOCK)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x, sch)
print(len(P), "properties")
