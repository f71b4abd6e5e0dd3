"""Which environments each property is explored in, and which disagreements
with the specification are about it.

A family is a generator profile (driver.Gen).  `multi` sessions run at once."""

STEPS = dict(p_step_no=.3, p_step_nr=.0)
WAIVE = dict(p_step_no=.1, p_step_nr=.8)
BUSY = {"continue": 40, "accept": 12, "reject": 8, "tempfail": 8, "discard": 4, "replycode": 12}
NEGV = {"continue": 45, "accept": 10, "reject": 15, "tempfail": 12, "discard": 9, "replycode": 15}
PASS = {"continue": 94, "accept": 4, "reject": 1, "replycode": 1}
ALLC = {"continue": 1}
QUIET = dict(p_close=0, p_timeout=0, p_idle_close=0, p_late=.02, p_quit=0, p_abort=.01)
HDR = ("addhdr", "inshdr", "chghdr")
ENV = ("chgfrom", "addrcpt", "addrcptpar", "delrcpt", "quarantine")
FAIL = dict(p_close=.06, p_timeout=.05, p_idle_close=.06, p_bad=.03, p_down=.08, p_neg_fail=.08)

F = {
    "general": {},
    "steps": STEPS,
    "waive": WAIVE,
    "waive2": dict(WAIVE, p_step_no=0, p_step_nr=.97, nkids=(1, 2)),
    "verdicts": dict(nkids=(2, 5), w=NEGV, w_stage={"connect": PASS, "helo": PASS, "mail": {"continue": 7, "accept": 2, "reject": 1, "tempfail": 1}},
                     rcpts=(1, 4), hdrs=(0, 1), bodies=(0, 1), msgs=(1, 4), p_rehelo=.4, p_unknown=.2, p_fb=.7),
    "early": dict(nkids=(2, 4), w=NEGV, p_unknown=.5, p_eval=.05),
    "texts": dict(nkids=(2, 4), w={"continue": 40, "reject": 8, "tempfail": 8, "replycode": 25, "accept": 6, "discard": 3},
                  w_stage={"connect": PASS, "helo": PASS, "mail": {"continue": 6, "replycode": 2, "reject": 1}}, rcpts=(1, 5), msgs=(1, 4), p_eval=.1),
    "eval": dict(p_eval=.6, nkids=(2, 4), w=BUSY, mods=(0, 2), p_close=.03, p_idle_close=.03, p_timeout=.02),
    "evalmods": dict(p_eval=.5, nkids=(2, 4), w=PASS, mods=(0, 4), hdrs=(1, 4), bodies=(1, 2), p_progress=.3),
    "evalfail": dict(FAIL, p_eval=.5, nkids=(2, 4), p_fb=.8, w=dict(PASS, **{"accept": 4})),
    "evalunsol": dict(p_eval=.6, nkids=(2, 3), p_unsol=.05, w=PASS),
    "evalone": dict(p_eval=1.0, nkids=(1, 2), w=BUSY, mods=(0, 2)),
    "fail": dict(FAIL, p_fb=.8, nkids=(1, 4)),
    "slow": dict(p_slow=.6, w={"continue": 8, "accept": 1, "reject": .5, "tempfail": .5}, nkids=(1, 3), hdrs=(0, 1), bodies=(0, 1), mods=(0, 2), p_late=.6, p_fb=.8, msgs=(1, 3),
                 p_timeout=.01, p_close=.01, p_progress=.4, p_eval=.1),
    "faildeep": dict(p_close=.03, p_timeout=.03, p_idle_close=.03, p_bad=.01, p_fb=.8, w=PASS, nkids=(2, 4), msgs=(2, 4), mods=(0, 2)),
    "failcontent": dict(p_close=.02, p_timeout=.02, p_idle_close=.05, p_fb=.4, w=PASS, nkids=(2, 4), msgs=(1, 3), hdrs=(2, 4), bodies=(1, 4),
                        bodylen=(1, 3), chunk=(1, 2, None)),
    "negfail": dict(p_down=.25, p_neg_fail=.25, p_fb=.6, p_eval=.3, nkids=(1, 4)),
    "failsteps": dict(FAIL, p_step_no=.3, p_step_nr=.3, nkids=(1, 3)),
    "failwaive": dict(WAIVE, p_idle_close=.06, p_close=.05, nkids=(1, 3), w=PASS, msgs=(2, 3)),
    "unsol": dict(p_unsol=.06, p_bad=.03),
    "unsoldeep": dict(p_unsol=.03, w=PASS, msgs=(2, 4), nkids=(2, 3), hdrs=(1, 3), bodies=(1, 3)),
    "history": dict(msgs=(3, 6), w_stage={"connect": PASS, "helo": PASS}, w=BUSY, nkids=(2, 4), p_close=.005, p_timeout=.005, p_idle_close=.003, p_quit=.005,
                    p_abort=.1, mods=(0, 1)),
    "rcpts": dict(msgs=(2, 4), rcpts=(2, 5), w=PASS, nkids=(1, 4), hdrs=(0, 1), bodies=(0, 1),
                  w_stage={"rcpt": {"continue": 5, "reject": 3, "tempfail": 2, "replycode": 2, "accept": 1, "discard": .2}}, p_eval=.1),
    "leave": dict(msgs=(2, 4), w=PASS, nkids=(2, 4), p_eval=.1,
                  w_stage={"mail": {"continue": 5, "accept": 2, "reject": .3, "tempfail": .3}, "rcpt": {"continue": 5, "accept": 1, "reject": .5},
                           "data": {"continue": 5, "accept": 2}, "header": {"continue": 8, "accept": 1}, "eoh": {"continue": 8, "accept": 1},
                           "body": {"continue": 8, "accept": 1}, "eom": {"continue": 5, "accept": 2}}),
    "refuse": dict(msgs=(2, 5), w=PASS, nkids=(2, 4), p_eval=.1, hdrs=(1, 3), bodies=(0, 3), p_close=.003, p_timeout=.003, p_idle_close=.003,
                   w_stage={k: {"continue": 10, "reject": 1, "tempfail": 1, "discard": 1, "replycode": 1, "accept": .5}
                            for k in ("mail", "data", "header", "eoh", "body", "eom")}),
    "mods": dict(QUIET, w=PASS, nkids=(2, 4), mods=(0, 4), hdrs=(0, 5), bodies=(0, 3), p_eval=.1, msgs=(1, 2)),
    "hdrmods": dict(QUIET, w=ALLC, nkids=(1, 3), mods=(1, 6), modset=HDR, hdrs=(0, 6), bodies=(0, 1), p_eval=.05, msgs=(1, 2), rcpts=(1, 1)),
    "spaces": dict(QUIET, w=ALLC, nkids=(2, 4), mods=(1, 4), modset=HDR, hdrs=(1, 5), bodies=(0, 1), p_eval=.0, msgs=(1, 1), rcpts=(1, 1),
                   p_step_yes=.5),
    "envmods": dict(QUIET, w=PASS, nkids=(1, 3), mods=(0, 4), modset=ENV, p_eval=.15, msgs=(1, 3), p_progress=.3),
    "bodymods": dict(QUIET, w=PASS, nkids=(1, 4), mods=(0, 3), modset=("replbody", "replbody", "addhdr"), bodies=(0, 4), p_eval=.1,
                     chunk=(1, 2, 3, None), eomchunk=.5, hdrs=(0, 1)),
    "modfail": dict(w=PASS, nkids=(2, 4), mods=(0, 3), p_close=.02, p_timeout=.02, p_fb=.3, msgs=(1, 3)),
    "bytes": dict(QUIET, tok=(1,), bodylen=(1, 12), bodies=(0, 5), chunk=(1, 2, 3, 7, 16, None), mods=(0, 1), modset=("replbody",),
                  w=PASS, bin=.5, eomchunk=.4, eomlen=(1, 9), hdrs=(0, 1), nkids=(1, 4), p_skip=.1, rcpts=(1, 1), p_eval=.1),
    "spill": dict(QUIET, tok=(16000,), bodylen=(3, 4), bodies=(60, 140), chunk=(1, 2, 3, 4), mods=(0, 2), modset=("replbody", "addhdr"),
                  msgs=(1, 2), p_unknown=0, p_abort=0, w=ALLC, w_eom={"continue": 3, "accept": 1}, nkids=(1, 3), p_skip=.01, hdrs=(0, 1)),
    "spillrepl": dict(QUIET, tok=(16000,), bodylen=(4, 4), bodies=(1, 3), chunk=(1, 2, 3, 4), mods=(70, 110), modset=("replbody",),
                      msgs=(1, 2), p_unknown=0, p_abort=0, w=ALLC, w_eom={"continue": 3, "accept": 1}, nkids=(1, 3), p_skip=.005, hdrs=(0, 1), rcpts=(1, 1),
                      p_eval=.05),
    "spillfail": dict(QUIET, tok=(16000,), bodylen=(4, 4), bodies=(80, 100), chunk=(2, 3), mods=(0, 1), modset=("replbody", "addhdr"),
                      msgs=(2, 3), p_unknown=0, p_abort=0.002, w={"continue": 300, "accept": 1}, w_eom={"continue": 3, "accept": 1}, p_close=.002,
                      nkids=(2, 3), hdrs=(0, 1), p_skip=.005),
    "aborts": dict(msgs=(2, 5), p_abort=.15, w=PASS, nkids=(1, 3), mods=(0, 2), p_macro=.3, rcpts=(1, 3)),
    "abortmods": dict(msgs=(2, 4), p_abort=.06, w=PASS, nkids=(1, 3), mods=(1, 3), w_eom={"continue": 4, "accept": 1, "reject": 2, "tempfail": 2, "discard": 2, "replycode": 2},
                      p_close=.02, p_idle_close=.01),
    "abortmid": dict(msgs=(2, 5), p_abort=.02, p_abort_mid=.06, w=PASS, nkids=(1, 4), mods=(0, 3), p_macro=.3),
    "abortpend": dict(QUIET, msgs=(3, 5), p_abort=.01, p_abort_mid=.01, p_abort_eom=.25, w=ALLC, w_eom={"continue": 5, "accept": 2, "reject": 1}, nkids=(2, 3),
                      mods=(1, 3), hdrs=(0, 2), bodies=(0, 1), rcpts=(1, 2), p_act=.95, p_act_mta=.97, p_unknown=0),
    "macro": dict(p_macro=.8, p_mreq=.4, msgs=(1, 3), p_step_no=.1),
    "macro2": dict(p_macro=.6, p_mreq=0, msgs=(2, 4), w=PASS, hdrs=(0, 2), nkids=(1, 3), mods=(0, 1)),
    "macro3": dict(p_macro=.9, p_mreq=.9, msgs=(1, 3), w=PASS, p_abort=.08, p_eval=.1, nkids=(1, 3)),
    "ends": dict(p_quit=.08, p_abort=.05, p_close=.04, p_idle_close=.04, p_timeout=.03, p_down=.05, p_neg_fail=.05),
    "endneg": dict(p_quit=.05, p_down=.2, p_neg_fail=.2, p_cut=.3),
    "cut": dict(p_cut=.03, p_close=.02, p_idle_close=.02, mods=(0, 2)),
    "cutdeep": dict(p_cut=.012, w=PASS, mods=(0, 2), hdrs=(1, 3), bodies=(1, 3), p_close=.005, p_timeout=.005, p_idle_close=.005, nkids=(1, 4)),
    "neg": dict(p_step_no=.3, p_step_nr=.5, p_act=.6, p_act_mta=.7, p_oldver=.4, p_mreq=.4, p_neg_fail=.05, p_down=.05, nkids=(1, 4), msgs=(1, 1), mods=(0, 1)),
    "negsteps": dict(p_step_no=.4, p_step_nr=.4, msgs=(1, 2), w=PASS, nkids=(1, 3)),
    "old": dict(p_oldver=.8, p_step_no=.2, msgs=(1, 2), nkids=(1, 3), w=PASS),
    "forbid": dict(QUIET, w=PASS, nkids=(1, 3), mods=(0, 4), p_act=.5, p_act_mta=.8, msgs=(1, 2), p_eval=.2),
    "forbidtime": dict(p_unsol=.08, w=PASS, nkids=(2, 3), mods=(0, 2), p_act=.7, unsol=("addhdr", "replbody", "addrcpt", "chgfrom", "quarantine", "inshdr", "chghdr", "delrcpt", "progress")),
    "early_mod": dict(w=PASS, nkids=(2, 3), p_early_mod=.04, p_act=.8),
    "early_plan": dict(QUIET, w=ALLC, nkids=(1, 3), p_plan=1, plan=("mod",), hdrs=(1, 3), bodies=(1, 3), msgs=(1, 2), mods=(0, 1)),
    "early_plan2": dict(QUIET, w=ALLC, nkids=(2, 3), p_plan=1, plan=("mod",), hdrs=(1, 3), bodies=(1, 3), msgs=(1, 2), mods=(0, 3)),
    "failplan": dict(QUIET, w=PASS, nkids=(1, 4), p_plan=1, plan=("close", "tick", "bad", "mod", "verdict"), hdrs=(1, 3), bodies=(1, 3), msgs=(1, 3), mods=(0, 2),
                     p_fb=.8),
    "evalplan": dict(QUIET, w=PASS, nkids=(2, 4), p_plan=1, p_eval=.5, plan=("close", "tick", "bad", "mod", "verdict"), hdrs=(1, 3), bodies=(1, 3), msgs=(1, 3),
                     mods=(0, 2), p_fb=.8),
    "frag": dict(p_frag=.8, p_glue=.0, p_macro=.4, mods=(0, 2)),
    "glue": dict(p_frag=.0, p_glue=.8, p_macro=.7, mods=(0, 3), p_progress=.3),
    "fragglue": dict(p_frag=.6, p_glue=.6, p_macro=.6, mods=(0, 3), p_step_nr=.5, p_mreq=.3, p_timeout=.03, p_close=.03),
    "fragbytes": dict(p_frag=.9, p_glue=.4, tok=(1,), bodylen=(1, 12), bodies=(0, 3), chunk=(1, 2, 3, 7, None), mods=(0, 2), bin=.5, w=PASS),
    "gluewaive": dict(p_glue=.8, p_step_nr=.97, nkids=(1, 2), w=PASS, hdrs=(1, 5), bodies=(1, 4), p_macro=.3, p_frag=.3),
    "many": dict(nkids=(4, 8), w=PASS),
    "multi": dict(multi=4),
    "multimods": dict(multi=3, w=PASS, mods=(0, 3), hdrs=(1, 4), bodies=(0, 2)),
    "multifail": dict(multi=5, p_close=.05, p_timeout=.03, p_idle_close=.05, p_bad=.03, p_cut=.01, p_unsol=.02),
    "multimacro": dict(multi=3, p_macro=.6, p_mreq=.4, p_step_no=.2, p_step_nr=.3, w=PASS),
    "multiwork": dict(multi=5, workers=3, mods=(0, 2), p_cut=.01),
    "multispill": dict(multi=2, tok=(16000,), bodylen=(4, 4), bodies=(70, 100), chunk=(2, 3), mods=(0, 1), modset=("replbody", "addhdr"),
                       msgs=(1, 1), p_unknown=0, p_abort=0, w=ALLC, nkids=(1, 2), hdrs=(0, 1), p_close=0, p_timeout=0, p_idle_close=0, p_quit=0, p_late=0),
    "cond": dict(conds=(1, 3), cond_ops=("arg", "arg", "arg", "token", "always", "never", "macro"), p_macro=.4, w=PASS, msgs=(1, 3), p_step_yes=0,
                 nkids=(1, 4), hdrs=(0, 3), bodies=(0, 3), p_eval=.2),
    "condctx": dict(conds=(1, 3), cond_ops=("quitted", "verdict", "shelf", "put", "put", "macro", "arg"), p_cond=.9, p_macro=.5, p_step_yes=0, p_close=0, p_timeout=0,
                    p_idle_close=0, w={"continue": 40, "accept": 5, "reject": 2, "tempfail": 2, "discard": 1, "replycode": 3}, p_eval=.6, msgs=(1, 4), nkids=(2, 4)),
    "shipped": dict(shipped=(1, 5), conds=(0, 1), p_peer=1, p_dom=.7, p_cond=.9, p_macro=.6, p_step_yes=0, w=PASS, msgs=(1, 3), nkids=(1, 3), p_mreq=.1),
    "condsteps": dict(conds=(1, 3), cond_ops=("arg", "always", "macro", "macro"), cond_st=("connect", "helo", "mail", "rcpt", "data", "header", "eoh", "eom"), p_step_no=.3, p_step_nr=.3,
                      w=PASS, p_macro=.5, msgs=(1, 3)),
    "condrcpt": dict(conds=(1, 2), cond_ops=("arg", "arg", "macro"), cond_st=("rcpt",), p_cond=.9, rcpts=(2, 5), p_step_yes=.1, p_macro=.3, msgs=(1, 3), nkids=(1, 4), p_eval=.2,
                     p_close=0, p_timeout=0, p_idle_close=0, w={"continue": 40, "accept": 3, "reject": 15, "tempfail": 8, "replycode": 8}),
    "condhelo": dict(conds=(1, 3), cond_ops=("macro", "arg"), cond_st=("connect", "helo"), p_step_no=.4, p_step_nr=.2, p_macro=.7, w=PASS, msgs=(1, 2)),
    "condfail": dict(FAIL, conds=(1, 3), cond_ops=("arg", "arg", "token", "always", "quitted"), p_step_yes=0, w=BUSY, p_fb=.8, nkids=(2, 4), msgs=(1, 3)),
    "condmods": dict(QUIET, conds=(1, 2), cond_ops=("arg", "token"), cond_st=("header", "body"), p_step_yes=0, w=PASS, mods=(0, 3), nkids=(2, 4), hdrs=(1, 4), bodies=(0, 3),
                     chunk=(1, 2, 3, None), eomchunk=.5, rcpts=(1, 1), p_eval=.1),
    "reload": dict(p_late=.02, multi=8, reload=dict(p_reload=.08), nkids=(0, 4), w=PASS, msgs=(1, 3), p_close=.005, p_timeout=.005, p_idle_close=.005),
    "reloadcond": dict(p_late=.02, multi=8, reload=dict(p_reload=.12), nkids=(1, 4), w=PASS, msgs=(1, 2), conds=(1, 3), p_step_yes=0, p_macro=.3,
                       cond_ops=("arg", "always", "token", "quitted", "shelf", "put", "macro", "verdict"), p_close=0, p_timeout=0, p_idle_close=0),
    "reloadfail": dict(FAIL, p_late=.02, multi=8, p_down=0, reload=dict(p_reload=.1), nkids=(1, 4), w=PASS, msgs=(1, 3), p_fb=.8),
    "reloadworkers": dict(multi=8, reload=dict(p_reload=.08, workers=2), nkids=(0, 4), w=PASS, msgs=(1, 2), p_late=.02, p_close=.005, p_timeout=.005, p_idle_close=.005),
    "reloadmods": dict(QUIET, multi=6, reload=dict(p_reload=.06), nkids=(1, 4), w=PASS, mods=(0, 3), hdrs=(0, 3), bodies=(0, 2), msgs=(1, 2), chunk=(1, 2, None)),
    "junk": dict(w=PASS, p_junk=.04, nkids=(1, 4), p_fb=.6, p_eval=.1, p_frag=.1),
    "junkplan": dict(QUIET, w=PASS, nkids=(1, 4), p_plan=1, plan=("junk",), hdrs=(1, 3), bodies=(1, 3), msgs=(1, 3), mods=(0, 2), p_fb=.7),
    "wild": dict(p_wild=.8, nkids=(0, 3), p_frag=.1, w=PASS, p_macro=.2, mods=(0, 1)),
    "wildcond": dict(p_wild=.8, nkids=(1, 3), conds=(1, 3), cond_ops=("arg", "arg", "token", "always", "macro", "shelf", "put"), p_macro=.3, w=PASS, p_step_yes=0),
    "multiwild": dict(multi=5, p_wild=.4, nkids=(0, 3), w=PASS, mods=(0, 1), p_macro=.2),
    "mixed": dict(p_unsol=.02, p_bad=.02, p_down=.05, p_neg_fail=.05, p_step_no=.1, p_step_nr=.2, mods=(0, 2), p_progress=.2, p_macro=.3, p_mreq=.3,
                  p_act=.9, p_act_mta=.9, chunk=(1, 2, None), p_glue=.2, p_frag=.1, p_cut=.005),
}

MTA = {"mta-count", "mta-verdict", "mta-text", "mta-mods", "mta-neg", "mta-eof"}
KID = {"kid-neg", "kid-macro", "kid-cmd", "kid-arg", "kid-abort", "kid-quit"}
BAD = {"died", "stuck", "foreign"}
ANY = MTA | KID | BAD | {"open", "fds"}


def kinds(m):
    """which kinds of difference a rejected step shows"""
    c = set()
    obs, exp = m["obs"], m["exp"]
    finals = ("continue", "accept", "reject", "tempfail", "discard", "replycode", "skip", "connfail", "shutdown", "neg", "NEG")
    o, e = obs["mta"], exp["mta"]
    if any(p["k"] == "DIED" for p in o):
        c.add("died")
    if any(p["k"] in ("FOREIGN", "undecodable", "truncated") or p["k"].startswith("?") for p in o):
        c.add("foreign")
    if m.get("open"):
        c.add("open")
    if not m["mta"]:
        of, ef = [p for p in o if p["k"] in finals], [p for p in e if p["k"] in finals]
        if len(of) != len(ef):
            c.add("mta-count")
        else:
            for x, y in zip(of, ef):
                xk, yk = x["k"].lower(), y["k"].lower()
                if xk != yk:
                    cls = lambda p: {"4": "tempfail", "5": "reject"}.get(p["a"][0][:1], "?") if p["k"] == "replycode" else p["k"]
                    c.add("mta-text" if cls(x) == cls(y) else "mta-verdict")
                elif xk == "neg":
                    c.add("mta-neg")
                elif x["a"] != y["a"]:
                    c.add("mta-text")
        if any(p["k"] == "eof" for p in o):
            c.add("mta-eof")
        if not c & (MTA | {"died", "foreign"}):
            c.add("mta-mods")
    for i, ok in enumerate(m["kids"]):
        if ok:
            continue
        o = [p for p in obs["kids"][i] if p["k"] != "open"]
        e = exp["kids"][i]
        d = set()
        ks = lambda q, f: [p for p in q if f(p["k"])]
        if any(p["k"] in ("undecodable", "truncated") or p["k"].startswith("?") for p in o):
            c.add("foreign")
        for name, f in (("kid-quit", lambda k: k in ("quit", "eof")), ("kid-abort", lambda k: k == "abort"),
                        ("kid-macro", lambda k: k == "macro"), ("kid-neg", lambda k: k == "neg")):
            norm = lambda q: [(p["k"], p["a"], sorted(map(tuple, p["s"]))) for p in ks(q, f)]
            if norm(o) != norm(e):
                d.add(name)
        rest = lambda k: k not in ("quit", "eof", "abort", "macro", "neg")
        a, b = ks(o, rest), ks(e, rest)
        if [p["k"] for p in a] != [p["k"] for p in b]:
            d.add("kid-cmd")
        elif [p["a"] for p in a] != [p["a"] for p in b]:
            d.add("kid-arg")
        c |= d or {"kid-cmd"}
    return c or {"stuck"}


def upto(tr, m):
    return tr["ev"][:m["step"]]


def evkind(e):
    return e.get("p", {}).get("k") or (e.get("ps") or [{}])[-1].get("k")


def second_message(tr, m):
    ev = upto(tr, m)
    mails = [i for i, e in enumerate(ev) if e["t"].startswith("mta") and evkind(e) in ("mail", "abort")]
    mac = [i for i, e in enumerate(ev) if e["t"] == "mta" and evkind(e) == "macro" and e["p"]["a"][0] == "mail"]
    return len(mails) > 1 or len(mac) > 1


def failed_before(tr, m):
    for e in upto(tr, m):
        if e["t"] in ("kidclose", "tick", "listen"):
            return True
        if e["t"].startswith("kid"):
            for p in [e["p"]] if "p" in e else e["ps"]:
                if p["k"] in ("connfail", "shutdown", "malformed"):
                    return True
    # an illegal packet: whatever made the milter disappear without having asked for it
    return not all(tr["cfg"]["up"]) or m["event"]["t"] in ("kid", "kidseq") and bool(kinds(m) & {"kid-quit", "mta-eof", "died", "stuck"}) \
        or any(e["t"].startswith("kid") for e in upto(tr, m)) and tr.get("unsol")


def disturbed(tr, m):
    """an unanswered command counts only beside sessions whose peers send anything"""
    return bool(kinds(m) - {"mta-count"}) or "/multiwild/" in tr["tag"]


def eval_involved(tr, m):
    ev = tr["cfg"]["eval"]
    for e in upto(tr, m):
        if e["t"].startswith("kid"):
            if ev[e["i"] - 1] and evkind(e) not in ("continue", "neg"):
                return True
        elif e["t"] == "tick" and any(ev):
            return True
    return any(v and not u for v, u in zip(ev, tr["cfg"]["up"]))


def mods_before(tr, m):
    mod = ("addhdr", "inshdr", "chghdr", "replbody", "chgfrom", "addrcpt", "addrcptpar", "delrcpt", "quarantine")
    return any(e["t"].startswith("kid") and any(p["k"] in mod for p in ([e["p"]] if "p" in e else e.get("ps", []))) for e in upto(tr, m))


# property -> (families with weights, relevant kinds, extra condition)
for x in ("Verdicts", "Verdicts3", "Content", "Evaluated", "Failures", "Connecting", "Cuts", "Changes", "Steps"):
    F["tour" + x] = dict(tour=x)        # behaviours of spec/MilterManager.tla

P = {
    "M01": ({"verdicts": 4, "early": 2, "general": 1, "steps": 1, "rcpts": 2, "fail": 1, "many": 1, "tourVerdicts": 1, "tourVerdicts3": 1},
            {"mta-verdict", "mta-count", "died", "stuck"}, None),
    "M02": ({"general": 1, "abortmid": 1, "unsol": 2, "unsoldeep": 1, "fail": 2, "failsteps": 1, "negfail": 1, "waive": 2, "waive2": 1, "history": 1, "ends": 1, "steps": 1,
             "failwaive": 1, "failcontent": 1, "tourFailures": 1, "tourCuts": 1, "tourSteps": 1},
            {"mta-count", "mta-neg", "mta-eof", "died", "stuck", "foreign"}, None),
    "M03": ({"texts": 5, "verdicts": 2, "history": 1, "fail": 1, "evalmods": 1, "tourVerdicts": 1}, {"mta-text", "mta-verdict", "mta-count", "died"}, None),
    "M04": ({"eval": 3, "evalplan": 2, "evalmods": 2, "evalfail": 2, "evalunsol": 1, "evalone": 1, "tourEvaluated": 2}, ANY, eval_involved),
    "M05": ({"slow": 2, "junk": 1, "junkplan": 1, "fail": 2, "failplan": 3, "faildeep": 2, "failcontent": 2, "negfail": 2, "failsteps": 1, "failwaive": 1, "evalfail": 1, "unsol": 1, "tourFailures": 2, "tourConnecting": 1}, ANY, failed_before),
    "M06": ({"leave": 3, "rcpts": 2, "history": 2, "refuse": 1, "early": 1, "steps": 1, "general": 1, "many": 1, "tourVerdicts3": 1, "tourContent": 1, "tourSteps": 1},
            {"kid-cmd", "kid-quit", "kid-abort", "kid-neg", "mta-count", "mta-verdict", "died", "stuck", "foreign"}, None),
    "M07": ({"refuse": 4, "abortmid": 2, "history": 2, "abortmods": 1, "eval": 1, "verdicts": 1, "tourContent": 1, "tourCuts": 1}, {"kid-abort", "kid-cmd", "mta-count", "mta-mods", "mta-verdict", "died", "stuck"}, None),
    "M08": ({"mods": 3, "hdrmods": 2, "bodymods": 2, "spaces": 1, "leave": 1, "modfail": 1, "failcontent": 1, "negsteps": 1, "tourContent": 1, "tourChanges": 1},
            {"kid-arg", "kid-cmd", "died", "stuck"}, None),
    "M09": ({"mods": 3, "hdrmods": 3, "envmods": 2, "bodymods": 1, "spaces": 1, "modfail": 1, "evalmods": 1, "tourChanges": 2},
            {"mta-mods", "mta-count", "mta-verdict", "died", "stuck"}, None),
    "M10": ({"bytes": 3, "spill": 2, "spillrepl": 2, "spillfail": 1, "bodymods": 2, "fragbytes": 1, "failcontent": 1},
            {"kid-arg", "kid-cmd", "mta-mods", "died", "stuck", "foreign", "mta-count"}, None),
    "M11": ({"history": 3, "aborts": 2, "abortmid": 3, "abortmods": 2, "abortpend": 3, "macro2": 1, "rcpts": 1, "faildeep": 1, "bodymods": 1, "tourCuts": 1}, ANY, second_message),
    "M12": ({"ends": 2, "cut": 3, "cutdeep": 2, "endneg": 1, "fail": 1, "multifail": 1, "multiwork": 1, "tourCuts": 1, "tourConnecting": 1}, {"kid-quit", "mta-eof", "open", "fds", "died", "stuck", "foreign"}, None),
    "M13": ({"multi": 3, "multimods": 2, "multifail": 2, "multimacro": 1, "multispill": 1, "multiwork": 1}, ANY, None),
    "M14": ({"neg": 4, "negsteps": 2, "steps": 1, "waive": 2, "waive2": 1, "old": 2, "spaces": 1, "tourSteps": 1}, ANY - {"mta-text", "fds", "kid-macro"}, None),
    "M15": ({"macro": 3, "macro2": 2, "macro3": 3, "multimacro": 1}, {"kid-macro", "died", "kid-neg", "mta-neg"}, None),
    "M16": ({"frag": 2, "glue": 2, "fragglue": 2, "fragbytes": 2, "gluewaive": 1}, ANY, None),
    "M17": ({"forbid": 3, "forbidtime": 2, "early_mod": 1, "early_plan": 2, "early_plan2": 2, "envmods": 1, "mods": 1, "tourChanges": 2},
            {"mta-mods", "mta-count", "mta-verdict", "kid-cmd", "kid-arg", "kid-quit", "died", "stuck", "foreign", "mta-eof"}, None),
    "K01": ({"cond": 3, "condctx": 3, "condsteps": 2, "condhelo": 1, "condrcpt": 2, "condfail": 1, "condmods": 2, "shipped": 2}, ANY, None),
    "K02": ({"reload": 3, "reloadcond": 3, "reloadfail": 2, "reloadmods": 1, "reloadworkers": 2}, ANY, None),
    "M18": ({"wild": 3, "wildcond": 1, "multiwild": 2, "junk": 1, "junkplan": 1, "unsol": 1, "fail": 1, "multifail": 1, "cut": 1, "mixed": 1}, {"died", "stuck", "fds", "foreign", "mta-eof", "open", "mta-count"}, disturbed),
}
FLAVOR = {"M18": "asan"}       # the daemon these properties are checked on
