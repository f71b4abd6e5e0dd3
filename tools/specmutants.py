#!/usr/bin/env python3
"""specmutants.py   are the properties that spec/MilterManager.tla states about spec/Session.tla worth anything?
Each line plants a mistake in Session.Step; TLC must find it in the named instance of the closed model."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tours
M = [
 ("M01 the order of severity", "Verdicts", "tempfail |-> 3,\n         reject |-> 4", "tempfail |-> 4,\n         reject |-> 3"),
 ("M01 accept outweighs continue", "Verdicts", "accept |-> 1, continue |-> 2", "accept |-> 2, continue |-> 1"),
 ("M02 no answer when nobody is left", "Failures", 'THEN Answer(s, s.cfg.gfb, <<>>)\n  ELSE IF s.prev', 'THEN s\n  ELSE IF s.prev'),
 ("M02 a waiting milter forgotten", "Failures", "[] k \\in Parallel -> ParCheck(Compile(s, f, <<>>))", "[] k \\in Parallel -> Compile(s, f, <<>>)"),
 ("M03 the text of an earlier, milder verdict", "Verdicts", "[s EXCEPT !.agg = st, !.txt = txt]", "[s EXCEPT !.agg = st, !.txt = IF txt = <<>> THEN @ ELSE txt]"),
 ("M03 the text is lost", "Verdicts", "ELSE IF st = s.agg /\\ txt # <<>> THEN", "ELSE IF st = s.agg THEN"),
 ("M04 an evaluated milter refuses", "Evaluated", "ev == s0.cfg.eval[i] /\\ v \\in Negative", "ev == s0.cfg.eval[i] /\\ v \\in Negative /\\ k # \"eom\""),
 ("M04 its failure counts", "Failures", 'Fallback(s, i) == IF s.cfg.eval[i] THEN "accept" ELSE s.cfg.fb[i]', "Fallback(s, i) == s.cfg.fb[i]"),
 ("M05 always accept", "Failures", 'Fallback(s, i) == IF s.cfg.eval[i] THEN "accept" ELSE s.cfg.fb[i]', 'Fallback(s, i) == "accept"'),
 ("M06 one that left gets the content", "Content", "!.m.q = Tail(@), !.kids[i].part = FALSE, !.kids[i].aw = \"\"]", "!.kids[i].part = FALSE, !.kids[i].aw = \"\"]"),
 ("M06 one that accepted the sender", "Verdicts", "k \\in {\"rcpt\", \"data\"} => s.kids[i].part", "k \\in {\"data\"} => s.kids[i].part"),
 ("M07 nobody told of a refusal", "Content", "AbortAll(Answer([s EXCEPT !.kids[i].part = FALSE, !.kids[i].aw = \"\"], st, txt))", "Answer([s EXCEPT !.kids[i].part = FALSE, !.kids[i].aw = \"\"], st, txt)"),
 ("M08 the body forgotten", "Content", '"body"   -> [s EXCEPT !.m.body = @ \\o a]', '"body"   -> [s EXCEPT !.m.body = IF @ = <<>> THEN a ELSE @]'),
 ("M08 headers in the wrong order", "Content", "!.m.hdrs = Append(@, <<a[1], a[2]>>)", "!.m.hdrs = <<<<a[1], a[2]>>>> \\o @"),
 ("M09 the new sender forgotten", "Changes", '[] p.k = "chgfrom" -> [s EXCEPT !.m.from = p.a]', '[] p.k = "chgfrom" -> s'),
 ("M09 the last replacement only", "Changes", "IF s.m.replby = i THEN @ \\o p.a ELSE p.a", "p.a"),
 ("M11 changes of the message before", "Changes", ("NewMsg, !.shelf = {},\n            !.kids", "IN [t EXCEPT !.m = NewMsg, !.shelf = {},"),
  ("[NewMsg EXCEPT !.from = s.m.from], !.shelf = {},\n            !.kids", "IN [t EXCEPT !.m = [NewMsg EXCEPT !.from = s.m.from], !.shelf = {},")),
 ("M11 the body of an aborted message", "Cuts", "BeginMsg(s) ==\n  [s EXCEPT !.m = NewMsg,", "BeginMsg(s) ==\n  [s EXCEPT !.m = [NewMsg EXCEPT !.body = s.m.body],"),
 ("M12 a milter without quit", "Cuts", 'st \\in {"up", "nego"} THEN QuitKid(t, i)', 'st \\in {"nego"} THEN QuitKid(t, i)'),
 ("M17 changes nobody may make", "Changes", "s.cfg.eval[i] \\/ ActionOf[p.k] \\notin s.kids[i].acts THEN s", "s.cfg.eval[i] THEN s"),
 ("M17 changes of an evaluated milter", "Changes", "s.cfg.eval[i] \\/ ActionOf[p.k] \\notin s.kids[i].acts THEN s", "ActionOf[p.k] \\notin s.kids[i].acts THEN s"),
 ("D01 leaves while somebody is served", "Life", "s.up /\\ s.quit /\\ DOMAIN s.live = {}", "s.up /\\ s.quit", "Service"),
 ("D01 does not leave with an empty house", "Life", '[] e.op = "term" -> Out([s EXCEPT !.quit = TRUE, !.queue = <<>>,', '[] e.op = "term" -> Out([s EXCEPT !.quit = s.live # <<>>, !.queue = <<>>,', "Service"),
 ("D02 one too many", "Life", "Cardinality(s.ghost) >= s.max", "Cardinality(s.ghost) > s.max", "Service"),
 ("D02 last come, first served", "Life", "!.queue = Append(@, e.s)", "!.queue = <<e.s>> \\o @", "Service"),
 ("D02 nobody looks again", "Life", "ELSE Pumped([s EXCEPT !.left = 0])", 'ELSE Out(s, {}, {}, "")', "Service"),
 ("D03 the socket is always removed", "Life", 'IF s.rmx /\\ @ = "sock"', 'IF @ = "sock"', "Service"),
 ("D03 the setting of the start counts", "Life", ", !.rmx = e.new.rmx]", "]", "Service"),
 ("C01 discard becomes accept", "Filter", '[] st = "discard"  -> <<Pk("discard", <<>>)>>', '[] st = "discard"  -> <<Pk("accept", <<>>)>>', "Client"),
 ("C02 changes kept for the next message", "Filter", "!.buf = <<>>, !.quar = NULL, !.msg = \"no\"])))", "!.quar = NULL, !.msg = \"no\"])))", "Client"),
 ("C02 changes without a right to them", "Filter", "InEom(s) /\\ allowed /\\ ArgsOk(s, f, a)", "InEom(s) /\\ ArgsOk(s, f, a)", "Client"),
 ("C02 quarantine after the verdict", "Filter", "s.buf \\o quar \\o v)", "s.buf \\o v \\o quar)", "Client"),
 ("C03 any code with any verdict", "Filter", "IF s.reply.code # \"\" /\\ Ch(s.reply.code, 1) = cls THEN", "IF s.reply.code # \"\" THEN", "Client"),
 ("C03 the reply of the command before", "Filter", "done(x) == [x EXCEPT !.reply = NoReply]", "done(x) == x", "Client"),
 ("C04 abort without a message", "Filter", "IF Has(s, \"abort\") /\\ (in \\/ s.cfg.api = \"client\")", "IF Has(s, \"abort\")", "Client"),
]


def one(m):
    name, inst, old, new = m[:4]
    d = tempfile.mkdtemp(prefix="mmmut")
    try:
        for x in os.listdir(tours.SPEC):
            if x.endswith(".tla"):
                shutil.copy(os.path.join(tours.SPEC, x), d)
        for x in (".tla", ".cfg"):
            shutil.copy(os.path.join(tours.MC, inst + x), d)
        f = os.path.join(d, (m[4] if len(m) > 4 else "Session") + ".tla")
        t = open(f).read()
        for o, n in [(old, new)] if isinstance(old, str) else zip(old, new):
            if t.count(o) != 1:
                return name, "the text to change is there %d times" % t.count(o)
            t = t.replace(o, n)
        open(f, "w").write(t)
        p = subprocess.run(["java", "-Xmx3g", "-XX:+UseSerialGC", "-cp", tours.CP, "tlc2.TLC", "-workers", "1", "-metadir", os.path.join(d, "md"),
                            "-noGenerateSpecTE", "-config", inst + ".cfg", inst + ".tla"], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=900)
        if "is violated" in p.stdout or "Stuttering" in p.stdout or "Back to state" in p.stdout:
            bad = [l for l in p.stdout.splitlines() if l.startswith("/\\ bad = ") and l != "/\\ bad = {}"]
            return name, "found: " + (bad[-1][9:] if bad else "a property of runs" if "is violated" not in p.stdout else [l for l in p.stdout.splitlines() if "violated" in l][0])
        if "No error has been found" in p.stdout:
            return name, "NOT FOUND"
        return name, "TLC: " + p.stdout[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sel = [m for m in M if not sys.argv[1:] or any(a in m[0] for a in sys.argv[1:])]
    ok = True
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for n, r in ex.map(one, sel):
            print("%-40s %s" % (n, r), flush=True)
            ok &= r.startswith("found")
    sys.exit(not ok)
