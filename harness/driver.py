"""Drives the real daemon through sessions chosen by a seeded generator and
records, for every environment event, the packets it caused.  The generator
only looks at what the peers have seen (never at the specification)."""
import os, random, threading
import mmbuild, wild, wire, world

ACTS = [a for a, _ in wire.ACTIONS]
NO = ["noconnect", "nohelo", "nomail", "norcpt", "nobody", "nohdrs", "noeoh", "nounknown", "nodata"]
NR = ["nr_conn", "nr_helo", "nr_mail", "nr_rcpt", "nr_data", "nr_unknown", "nr_hdr", "nr_eoh", "nr_body"]
YES = ["skip", "rcptrej", "leadspc"]
NOSTEP = dict(connect="noconnect", helo="nohelo", mail="nomail", rcpt="norcpt", data="nodata",
              unknown="nounknown", header="nohdrs", eoh="noeoh", body="nobody")
NRSTEP = dict(connect="nr_conn", helo="nr_helo", mail="nr_mail", rcpt="nr_rcpt", data="nr_data",
              unknown="nr_unknown", header="nr_hdr", eoh="nr_eoh", body="nr_body")
MOD_ACTION = dict(addhdr="addhdrs", inshdr="addhdrs", chghdr="chghdrs", replbody="chgbody",
                  chgfrom="chgfrom", addrcpt="addrcpt", addrcptpar="addrcptpar",
                  delrcpt="delrcpt", quarantine="quarantine")
FINAL = {"continue", "accept", "reject", "tempfail", "discard", "replycode", "skip", "connfail", "shutdown"}
MSG = {"mail", "rcpt", "data", "header", "eoh", "body", "eom"}


def esc(t):
    """1:1 printable form of a byte string held as latin-1 text"""
    o = []
    for c in t:
        if c == "\\":
            o.append("\\\\")
        elif " " <= c <= "~":
            o.append(c)
        else:
            o.append("\\x%02x" % ord(c))
    return "".join(o)


def reply_lines(x):
    """the lines of a reply text; the separator after the code is "-" on all but the last, a line may have no text"""
    ls = x.split("\r\n")
    return "\r\n".join((l[:3] + " " + l[4:] if len(l) > 3 and l[3] in "- " and i + 1 < len(ls) else l).rstrip(" ")
                       for i, l in enumerate(ls))


def jp(k, a=(), s=()):
    if k == "replycode":
        a = [reply_lines(x) for x in a]
    return {"k": k, "a": [esc(x) for x in a], "s": [[esc(n), esc(v)] for n, v in s]}


STATUS = {"tempfail": "temporary-failure"}


STOPPER = dict(connect="connect", helo="helo", mail="envelope_from", rcpt="envelope_recipient", data="data",
               header="header", eoh="end_of_header", body="body", eom="end_of_message")
NARGS = dict(connect=("host", "address"), helo=("fqdn",), mail=("from",), rcpt=("recipient",), data=(), header=("name", "value"),
             eoh=(), body=("chunk",), eom=())


def stopper_code(c):
    """the Ruby a user would write for one stopper of the specification"""
    op, key = c["op"], c["key"]
    if op == "always":
        return "true"
    if op == "never":
        return c["how"]
    if op == "arg":
        a = NARGS[c["st"]]
        x = a[c["ix"] - 1] if c["st"] != "connect" or c["ix"] == 1 else "address.address"
        return "%s.to_s.include?(%r)" % (x, c["pat"])
    if op == "token":
        return "chunk.dup.force_encoding('BINARY').include?(%r)" % c["pat"]
    if op == "macro":
        return "(context[%r] || '').include?(%r)" % (c["name"], c["pat"])
    if op == "quitted":
        return "context.children['%s'].quitted?" % c.get("who", "k%d" % c["ix"])
    if op == "verdict":
        return "context.children['%s'].%s?" % (c.get("who", "k%d" % c["ix"]), {"tempfail": "temporary_failure"}.get(key, key))
    if op == "shelf":
        return "context.mail_transaction_shelf[%r]" % key
    assert op == "put"
    return "context.mail_transaction_shelf[%r] = true; false" % key


# conditions that come with milter-manager, and what they mean
TRUSTED = {"gmail.com", "hotmail.com", "msn.com", "yahoo.co.jp", "softbank.ne.jp", "ezweb.ne.jp", "docomo.ne.jp", "clear-code.com"}
HOSTS = {"mail.example.com": 0, "[192.0.2.7]": 1, "unknown": 1, "220-139-165-188.dynamic.hinet.net": 1, "evrtwa1-ar3-4-65-157-048.evrtwa1.dsl-verizon.net": 1,
         "a1.b2.c3.example.net": 1, "398pkj.cm.chello.no": 1, "mail-qk1-f169.google.com": 0, "d5.GtokyoFL27.vectant.ne.jp": 1, "dhcp7.example.org": 1,
         "dialup-4.example.org": 1, "mx.example.org": 0, "o1.email.slack.com": 0, "p12345.example.jp": 1, "adsl-1.example.com": 1}
ADDRS = {("4", "192.0.2.9"): 1, ("4", "127.0.0.1"): 0, ("4", "10.1.2.3"): 0, ("4", "172.16.0.9"): 0, ("4", "172.32.0.9"): 1, ("4", "192.168.255.1"): 0,
         ("4", "160.29.167.10"): 0, ("4", "160.29.168.10"): 1, ("4", "10.9.9.9"): 1, ("6", "IPv6:2001:db8::9"): 1, ("6", "IPv6:::1"): 0, ("6", "IPv6:fe80::1"): 0,
         ("L", "/tmp/client.sock"): 0, ("U", ""): 0}
SHIPPED = {
    "Authenticated": ("authentication", "", [{"op": "unset", "st": "mail", "key": "{auth_type}"}]),
    "Unauthenticated": ("authentication", "", [{"op": "set", "st": "mail", "key": "{auth_type}"}]),
    "Remote Network": ("remote-network", 'remote_network.add_local_address("160.29.167.0/24")\nremote_network.add_remote_address("10.9.9.0/24")\n',
                       [{"op": "notarg", "st": "connect", "ix": 4, "v": sorted({a for (f, a), rem in ADDRS.items() if rem})}]),
    "S25R": ("s25r", "", [{"op": "arg", "st": "connect", "ix": 2, "v": ["6", "L", "U"]},
                          {"op": "notarg", "st": "connect", "ix": 1, "v": sorted(h for h in HOSTS if HOSTS[h])}]),
    "No Stress": ("stress", "stress.threshold_n_connections = 1\n", [{"op": "always", "st": "connect"}]),
    "No Stress #2": ("stress", "stress.threshold_n_connections = 2\n", [{"op": "never", "st": "connect"}]),
    "Stress Notify": ("stress", "stress.threshold_n_connections = 1\n",
                      [{"op": "define", "st": "connect", "ix": 2, "v": ["4", "6", "L", "U"], "key": "{stress}", "val": "yes"}]),
    "S25R #block": ("s25r", 's25r.add_whitelist {|host| host.end_with?(".chello.no")}\ns25r.add_blacklist {|host| host == "mx.example.org"}\n'
                            's25r.add_whitelist("dhcp7.example.org")\ns25r.add_blacklist(/\\.slack\\.com\\z/)\ns25r.add_blacklist("p12345.example.jp")\n',
                    [{"op": "arg", "st": "connect", "ix": 2, "v": ["6", "L", "U"]},
                     {"op": "notarg", "st": "connect", "ix": 1, "v": sorted({h for h in HOSTS if HOSTS[h]} - {"398pkj.cm.chello.no", "dhcp7.example.org"} | {"mx.example.org"})}]),
    "S25R #any": ("s25r", "s25r.check_only_ipv4 = false\n", [{"op": "notarg", "st": "connect", "ix": 1, "v": sorted(h for h in HOSTS if HOSTS[h])}]),
    "Trust #own": ("trust", 'trust.clear\ntrust.add_envelope_from_domain("gmail.com.example")\ntrust.add_envelope_from_domain(/code/)\ntrust.add_envelope_from_domain {|domain| domain.start_with?("soft")}\n',
                   [{"op": "define", "st": "mail", "ix": 1, "trust": {"gmail.com.example", "clear-code.com", "softbank.ne.jp"}, "key": "{trusted_domain}", "val": "yes"}]),
    "Trust": ("trust", "", [{"op": "define", "st": "mail", "ix": 1, "trust": TRUSTED, "key": "{trusted_domain}", "val": "yes"}]),
}


def condition_conf(name, stoppers):
    o = ["define_applicable_condition(%r) do |condition|" % name]
    for c in stoppers:
        o.append("  condition.define_%s_stopper do |%s|" % (STOPPER[c["st"]], ", ".join(("context",) + NARGS[c["st"]])))
        o.append("    " + stopper_code(c))
        o.append("  end")
    o.append("end")
    return "\n".join(o)


def milter_conf(specs, gfb=None, chunk=None, extra="", order=None, conds=None):
    """specs: list of dicts name, eval, fb, rto, wto, eto, cto, extra, conds; conds: name -> stoppers"""
    o = ['load("applicable-conditions/%s.conf")\n%s' % (f, x) for f, x in sorted({SHIPPED[n][:2] for n in conds or () if n in SHIPPED})]
    o += [condition_conf(n, c) for n, c in sorted((conds or {}).items()) if n not in SHIPPED]
    if gfb:
        o.append('manager.fallback_status = "%s"' % STATUS.get(gfb, gfb))
    if chunk:
        o.append('manager.chunk_size = %d' % chunk)
    for m in specs:
        o.append('define_milter("%s") do |m|' % m["name"])
        o.append('  m.connection_spec = "unix:@DIR@/c_%s.sock"' % m.get("sock", m["name"]))
        if m.get("eval"):
            o.append("  m.evaluation_mode = true")
        if m.get("fb"):
            o.append('  m.fallback_status = "%s"' % STATUS.get(m["fb"], m["fb"]))
        for k, n in (("rto", "reading_timeout"), ("wto", "writing_timeout"),
                     ("eto", "end_of_message_timeout"), ("cto", "connection_timeout")):
            if m.get(k):
                o.append("  m.%s = %s" % (n, m[k]))
        if m.get("conds"):
            o.append("  m.applicable_conditions = [%s]" % ", ".join(repr(c.split(" #")[0]) for c in m["conds"]))
        if m.get("extra"):
            o.append(m["extra"])
        o.append("end")
    return "\n".join(o) + "\n" + extra


MACROS = {"connect": ["j", "_", "{daemon_name}", "{if_name}"], "helo": ["{tls_version}", "{cipher}"],
          "mail": ["i", "{auth_type}", "{mail_addr}"], "rcpt": ["{rcpt_mailer}", "{rcpt_addr}"],
          "data": ["i", "{d1}"], "header": ["{h1}"], "eoh": ["i", "{e1}"], "body": ["{b1}"], "eom": ["i", "{msg_id}"]}


class Stuck(Exception):
    pass


class Wild(Exception):
    pass


class Hub:
    """Several sessions of one daemon, one event at a time in random order."""

    def __init__(self, rng):
        self.r = rng
        self.live = {}
        self.turn = None
        self.waiting = []
        self.cv = threading.Condition()
        self.failed = None

    def switch(self, s):
        self.pass_on(s.sid)

    def choose(self):
        return self.r.choice(self.waiting)

    def before(self, s):
        pass

    after = before

    def pass_on(self, me, leave=False):
        with self.cv:
            if leave:
                self.waiting.remove(me)
            if not self.waiting:
                self.turn = None
                return
            self.turn = self.choose()
            self.cv.notify_all()
            if not leave:
                self.wait(me)

    def wait(self, me):
        while self.turn != me:
            if not self.cv.wait(120):
                raise world.HarnessError("sessions do not take turns")
        if self.failed:
            raise self.failed

    def run(self, w, setup, jobs):
        """jobs: list of (sid, Gen, tag) -> sessions, died"""
        out, self.waiting = {}, [j[0] for j in jobs]
        errs = []

        def go(sid, g, tag):
            try:
                with self.cv:
                    self.wait(sid)
                out[sid] = g.session(w, setup() if callable(setup) else setup, sid, tag, self)
                if out[sid][1]:
                    self.failed = world.DaemonDied(None, "")
            except world.DaemonDied as x:
                self.failed = x
                if getattr(g, "s", None) is not None:
                    out[sid] = (g.s, True)
            except BaseException as x:
                self.failed = x
                errs.append(x)
            finally:
                self.live.pop(sid, None)
                self.pass_on(sid, True)
        ts = [threading.Thread(target=go, args=j) for j in jobs]
        for t in ts:
            t.start()
        with self.cv:
            self.turn = self.choose()
            self.cv.notify_all()
        for t in ts:
            t.join()
        bad = [x for x in errs if not isinstance(x, world.DaemonDied)]
        if bad:
            raise bad[0]
        return [out[j[0]][0] for j in jobs if j[0] in out], isinstance(self.failed, world.DaemonDied)


class Setup:
    """One daemon configuration."""
    workers = 0

    def __init__(self, specs, gfb="accept", chunk=None, eto=300, rto=10, extra="", env=None, args=(), tok=4, conds=None):
        self.conds = conds or {}
        self.specs, self.gfb, self.chunk, self.tok = specs, gfb, chunk, tok
        self.names = [m["name"] for m in specs]
        self.rto, self.eto = rto, eto
        for m in specs:
            m.setdefault("rto", rto)
            m.setdefault("eto", eto)
        self.extra, self.env, self.args = extra, env or {}, args

    def world(self, bld=None):
        wire.set_token(self.tok)
        files = {"applicable-conditions/%s.conf" % SHIPPED[n][0]: open(os.path.join(mmbuild.REPO, "data/applicable-conditions/%s.conf" % SHIPPED[n][0])).read()
                 for n in self.conds if n in SHIPPED}
        extra = self.extra + ("manager.n_workers = %d\n" % self.workers if self.workers else "")
        w = world.World(bld, children=self.names, env=self.env, args=self.args, files=files, workers=self.workers,
                        config=milter_conf(self.specs, self.gfb, self.chunk and self.chunk * self.tok, extra, conds=self.conds))
        if "load_configuration" in w.logtail():
            log = w.logtail()
            w.stop()
            raise world.HarnessError("configuration refused: " + log)
        return w

    def cfg(self):
        return {"n": len(self.specs),
                "eval": [bool(m.get("eval")) for m in self.specs],
                "fb": [m.get("fb") or "accept" for m in self.specs],
                "gfb": self.gfb, "chunk": self.chunk or 65535 // self.tok,
                "rto": self.rto, "eto": self.eto, "retry": 5,
                "conds": [[c for n in m.get("conds") or () for c in self.conds[n]] for m in self.specs]}


class Session:
    """One MTA connection through the daemon, recorded."""

    def __init__(self, w, setup, sid, tag="", hub=None):
        self.w, self.setup, self.sid, self.hub = w, setup, sid, hub
        self.pend = None                     # packets glued to the next one of the same peer
        self.glue = False
        self.names = setup.names
        self.n = len(self.names)
        self.ev = []
        self.tag = tag
        self.up = [nm in w.listeners for nm in self.names]
        self.up0 = list(self.up)
        self.awaiting = [None] * self.n      # command the milter owes an answer to
        self.conn = [None] * self.n          # None, "nego", "up", "gone"
        self.ksteps = [set()] * self.n
        self.kacts = [set()] * self.n
        self.out = None                      # the MTA's outstanding command
        self.reply = None                    # last final reply
        self.ann = None
        self.closed = False
        self.unsol = False
        self.plan = None
        self.wild, self.wild_after = False, None
        w.connect_mta(sid)
        w.settle()
        if hub:
            hub.live[sid] = self

    # -- one event
    def event(self, e, act, common=False, switch=True):
        """common: the event happens to every live session (time passing, a listener changing)"""
        if self.pend:
            self.flush()
        w = self.w
        if self.wild_after is not None and len(self.ev) >= self.wild_after and not self.wild:
            self.wild_after = None
            raise Wild()
        if self.hub:
            self.hub.before(self)
        act()
        live = self.hub.live if self.hub else {self.sid: self}
        obs = {x: {"mta": [], "kids": [[] for _ in range(t.n)]} for x, t in live.items()}
        died = None
        try:
            o = w.settle()
            if self.hub:
                self.hub.after(self)
                o += w.settle()
        except world.DaemonDied as x:
            died = x
            o = []
        for (sid, who), k, a, s in o:
            if sid not in obs:
                obs[self.sid]["mta"].append(jp("FOREIGN", [str(sid), who, k]))
                continue
            t = live[sid]
            if t.wild:
                continue
            if who == "mta":
                obs[sid]["mta"].append(jp(k, a, s))
                t.saw_mta(k, a, s)
            elif who not in t.names:
                obs[sid]["mta"].append(jp("FOREIGN", [who, k]))
            else:
                i = t.names.index(who)
                obs[sid]["kids"][i].append(jp(k, a, s))
                t.saw_kid(i, k, a, s)
        if died:
            obs[self.sid]["mta"].append(jp("DIED", [str(died.status)]))
        for sid, t in live.items():
            if t.wild and not died and e["t"] != "end":
                continue
            if t is self or common:
                t.ev.append(dict(e, obs=obs[sid]))
            elif obs[sid]["mta"] or any(obs[sid]["kids"]):
                t.ev.append({"t": "none", "obs": obs[sid]})
        if died:
            raise died
        if self.hub and switch:
            self.hub.switch(self)
        return obs[self.sid]

    def packet(self, who, p, data, hold=False):
        """send one packet; packets held back travel with the next one in one write"""
        if self.pend and self.pend[0] != who:
            self.flush()
        if self.pend or hold:
            w, ps, ds = self.pend or (who, [], [])
            self.pend = (who, ps + [p], ds + [data])
            if hold:
                return None
            return self.flush()
        return self.send(who, [p], data)

    def flush(self):
        who, ps, ds = self.pend
        self.pend = None
        return self.send(who, ps, b"".join(ds))

    def send(self, who, ps, data):
        e = {"t": "mta"} if who == "mta" else {"t": "kid", "i": self.names.index(who) + 1}
        if len(ps) == 1:
            e["p"] = ps[0]
        else:
            e["t"] += "seq"
            e["ps"] = ps
        return self.event(e, lambda: self.w.send((self.sid, who), data))

    def saw_mta(self, k, a, s):
        if k == "eof":
            self.closed = True
        elif k == "neg" or k in FINAL:
            self.reply, self.out = k, None
            self.rtext = a
            if k == "neg":
                self.ann = {v for n, v in s if n == "p"}

    def saw_kid(self, i, k, a, s):
        if k == "open":
            self.conn[i] = "nego"
        elif k in ("eof", "quit"):
            self.conn[i] = "gone"
            self.awaiting[i] = None
        elif k == "abort":
            self.awaiting[i] = None
        elif k == "neg":
            self.awaiting[i] = "neg"
            self.koffer = {"v": [v for n, v in s if n == "v"], "a": [v for n, v in s if n == "a"],
                           "p": [v for n, v in s if n == "p"]}
        elif k != "macro":
            self.awaiting[i] = None if NRSTEP.get(k) in self.ksteps[i] else k

    def wildly(self, act):
        self.w.lossy = True
        try:
            return self.event({"t": "wild"}, act)
        finally:
            self.w.lossy = False

    # -- MTA side
    def mta_neg(self, ver=6, acts=ACTS, steps=()):
        self.out = "neg"
        self.offer = (ver, list(acts), list(steps))
        self.mver = ver
        return self.packet("mta", jp("neg", (), [("v", str(ver))] + [("a", x) for x in acts] +
                                     [("p", x) for x in steps]), wire.neg(ver, acts, steps))

    def mta(self, k, *a, s=(), hold=False):
        if k == "quit":
            self.closed = True
        if k not in ("macro", "abort", "quit"):
            waived = NRSTEP.get(k) in (self.ann or ())
            self.out = None if waived else k
            if waived:
                self.reply = "continue"
        return self.packet("mta", jp(k, a, s), wire.cmd(k, *a, s=s), hold)

    def mta_abort_mid(self):
        """the MTA drops the message without waiting for the reply it is owed"""
        self.out, self.reply = None, "aborted"
        self.awaiting = [None] * self.n
        return self.mta("abort")

    def mta_close(self):
        self.closed = True
        return self.event({"t": "mtaclose"}, lambda: self.w.half_close((self.sid, "mta")))

    # -- milter side
    def kid(self, i, k, *a, hold=False):
        if k in FINAL:
            self.awaiting[i] = None
        return self.packet(self.names[i], jp(k, a), wire.rep(k, *a), hold)

    def kid_junk(self, i, data):
        """a packet that is no reply"""
        self.awaiting[i] = None
        self.conn[i] = "gone"
        return self.packet(self.names[i], jp("malformed"), wire.frame(data))

    def kid_neg(self, i, ver, acts, steps, macros=None):
        self.awaiting[i] = None
        self.conn[i] = "up"
        off = set(self.koffer["p"]) if False else set(self.offer[2])
        self.ksteps = self.ksteps[:i] + [set(steps) & off] + self.ksteps[i + 1:]
        self.kacts = self.kacts[:i] + [set(acts) & set(self.offer[1])] + self.kacts[i + 1:]
        s = [("v", str(ver))] + [("a", x) for x in acts] + [("p", x) for x in steps]
        for st, ns in (macros or {}).items():
            s += [("m" + st, x) for x in ns]
        return self.packet(self.names[i], jp("neg", (), s), wire.neg(ver, acts, steps, macros))

    def kid_close(self, i):
        self.conn[i] = "gone"
        self.awaiting[i] = None
        return self.event({"t": "kidclose", "i": i + 1},
                          lambda: self.w.half_close((self.sid, self.names[i])))

    def tick(self, d):
        return self.event({"t": "tick", "d": d}, lambda: self.w.advance(d), True)

    def listen(self, i, on):
        self.up[i] = on
        return self.event({"t": "listen", "i": i + 1, "on": on},
                          lambda: (self.w.listen if on else self.w.unlisten)(self.names[i]), True)

    def usable(self, i):
        p = self.w.peers.get((self.sid, self.names[i]))
        return p is not None and not p.eof and self.conn[i] in ("nego", "up")

    def finish(self, over=True):
        self.wild_after = None
        if self.pend:
            self.flush()
        if over and self.closed:
            # M12: once the MTA's connection is over nothing of the session is left
            hub = self.hub
            self.event({"t": "end"}, lambda: None, switch=False)
            self.ev[-1]["open"] = sorted(k[1] for k, p in self.w.peers.items() if k[0] == self.sid and not p.eof)
            if hub and self.setup.conds:
                # objects the conditions' Ruby code has seen go when garbage is collected: at the latest when no session is left
                self.ev[-1]["open"] = [x for x in self.ev[-1]["open"] if x == "mta"]
        if self.hub:
            self.hub.live.pop(self.sid, None)
        for key in list(self.w.peers):
            if key[0] == self.sid:
                self.w.close(key)
        for i, nm in enumerate(self.names):
            if nm not in self.w.listeners:
                self.w.listen(nm)
        self.w.settle()

    def stopper(self, c):
        """a stopper for the specification: the pattern is replaced by the strings of this trace it matches"""
        v = set(c.get("v", ()))
        if c.get("trust"):
            for e in self.ev:
                for p in ([e["p"]] if "p" in e else e.get("ps", [])):
                    if p["k"] == "mail" and p["a"][0].rstrip(">").split("@")[-1].lower() in c["trust"]:
                        v.add(p["a"][0])
        if c.get("pat"):
            for e in self.ev:
                for p in [e.get("p")] + e.get("ps", []) + e["obs"]["mta"] + [q for l in e["obs"]["kids"] for q in l]:
                    for x in (p["a"] + [y for _, y in p["s"]] if p else ()):
                        if c["pat"] in (x[5:] if x.startswith("IPv6:") else x):
                            v |= {x, x.lstrip(" "), " " + x}
        ix = c.get("ix", 0)
        if c.get("pat") and c["st"] == "connect" and ix == 2:
            ix = 4
        return {"op": c["op"], "st": c["st"], "ix": ix, "val": c.get("val", ""), "key": c["name"] if c["op"] == "macro" else c.get("key", ""), "v": sorted(v)}

    def trace(self):
        c = self.setup.cfg()
        c["up"] = self.up0
        lc, num = {}, {}
        for e in self.ev:
            for p in [e.get("p")] + e.get("ps", []) + e["obs"]["mta"] + [q for l in e["obs"]["kids"] for q in l]:
                if not p:
                    continue
                a = p["a"]
                nm = None
                if p["k"] in ("header", "addhdr") and a:
                    nm = a[0]
                elif p["k"] in ("inshdr", "chghdr") and len(a) > 1:
                    nm = a[1]
                    num[a[0]] = int(a[0])
                if nm is not None and nm.lower() != nm:
                    lc[nm] = nm.lower()
                for n, v in p["s"]:
                    if n == "v":
                        num[v] = int(v)
        c["conds"] = [[self.stopper(x) for x in l] for l in c["conds"]]
        lc.setdefault("-", "-")
        num.setdefault("0", 0)
        c["lc"], c["num"] = lc, num
        return {"cfg": c, "ev": self.ev, "tag": self.tag, "unsol": self.unsol}


# ---------------------------------------------------------------------------
class Gen:
    """A profile: the probabilities of everything the environment may do."""

    def __init__(self, rng, **kw):
        self.r = rng
        self.p = dict(
            nkids=(1, 3), p_eval=0.2, p_fb=0.4, p_gfb=0.4, chunk=None,
            p_step_no=0.0, p_step_nr=0.0, p_step_yes=0.3, p_act=1.0, p_act_mta=1.0,
            p_oldver=0.1, p_mreq=0.0, p_macro=0.0, p_down=0.0, p_neg_fail=0.0,
            msgs=(1, 3), p_unknown=0.1, p_abort=0.06, p_quit=0.03,
            rcpts=(1, 3), hdrs=(0, 3), bodies=(0, 3), bodylen=(1, 4), eomchunk=0.2, eomlen=(1, 3),
            w=dict({"continue": 70}, accept=8, reject=4, tempfail=4, discard=2, replycode=5),
            w_eom=None, w_stage={}, p_close=0.02, p_timeout=0.015, p_unsol=0.0, p_idle_close=0.01,
            p_bad=0.0, mods=(0, 0), modset=tuple(wire.REP), p_progress=0.0, p_slow=0.0, p_skip=0.3,
            p_reuse_hdr=0.5, p_mta_leadspc=0.3, bin=0.2, p_rehelo=0.1, p_frag=0.0, p_nodata=0.0,
            p_late=0.3, conds=(0, 0), shipped=(0, 0), p_cond=.7, p_peer=.1, p_dom=0.0, cond_ops=("arg",), cond_st=None, p_glue=0.0, tok=(4,), p_cut=0.0, p_wild=0.0, p_junk=0.0, p_abort_mid=0.0, p_abort_eom=-1, p_early_mod=0.0, p_plan=0.0, plan=("close", "tick", "bad", "mod"), multi=1,
            unsol=("continue", "accept", "reject", "tempfail", "discard", "replycode", "addhdr", "progress",
                   "skip", "replbody", "addrcpt"))
        for k in kw:
            if k not in self.p:
                raise KeyError(k)
        self.p.update(kw)
        self.seq = 0

    def hit(self, name):
        v = self.p[name]
        if v < 0 and name == "p_abort_eom":
            v = self.p["p_abort_mid"]
        return v > 0 and self.r.random() < v

    def rng(self, name):
        a, b = self.p[name]
        return self.r.randint(a, b)

    def pick(self, w):
        ks = list(w)
        return self.r.choices(ks, [w[k] for k in ks])[0]

    def setup(self):
        r, p = self.r, self.p
        n = self.rng("nkids")
        fbs = ["accept", "tempfail", "reject", "discard"]
        specs = []
        for i in range(n):
            specs.append({"name": "k%d" % (i + 1), "eval": self.hit("p_eval"),
                          "fb": r.choice(fbs) if self.hit("p_fb") else None})
        conds = {}
        for j in range(self.rng("conds")):
            conds["cond %d" % (j + 1)] = [self.stopper(n) for _ in range(r.choice((1, 1, 2, 3)))]
        ship = {SHIPPED[x][0]: x for x in r.sample(sorted(SHIPPED), self.rng("shipped"))}      # one per file: its settings are global
        conds.update({x: SHIPPED[x][2] for x in ship.values()})
        for m in specs:
            if conds and self.hit("p_cond"):
                m["conds"] = r.sample(sorted(conds), min(len(conds), r.choice((1, 1, 2))))
        gfb = r.choice(fbs) if self.hit("p_gfb") else "accept"
        chunk = r.choice(p["chunk"]) if p["chunk"] else None
        return Setup(specs, gfb=gfb, chunk=chunk, tok=r.choice(p["tok"]), conds=conds)

    def stopper(self, n):
        r = self.r
        op = r.choice(self.p["cond_ops"])
        st = r.choice(self.p["cond_st"] or tuple(STOPPER))
        c = {"op": op, "st": st, "ix": 0, "key": ""}
        if op == "arg":
            c["st"] = st = r.choice([x for x in self.p["cond_st"] or tuple(STOPPER) if NARGS[x] and x != "body"] or ["mail"])
            c["ix"] = r.randint(1, len(NARGS[st]))
            c["pat"] = r.choice("345678")
        elif op == "token":
            c["st"] = "body"
            c["pat"] = r.choice("345678")
        elif op == "macro":
            s2 = r.choice([x for x in MACROS if list(MACROS).index(x) <= list(MACROS).index(st)])
            c["name"] = r.choice(MACROS[s2])
            c["pat"] = r.choice("345678")
        elif op in ("quitted", "verdict"):
            c["ix"] = r.randint(1, n)
            c["key"] = r.choice(("accept", "reject", "tempfail", "discard"))
        elif op in ("shelf", "put"):
            c["st"] = r.choice([x for x in STOPPER if x not in ("connect", "helo")])
            c["key"] = r.choice(("a", "b"))
        elif op == "never":
            c["how"] = r.choice(("false", "nil", "raise 'x'", "context['{nosuch}']", "context.reject?", "context.children['nosuch']", "undefined_thing(1)"))
        return c

    # -- content
    NAMES = ["X-A", "x-a", "X-B", "Subject", "To", "X-b"]

    def hname(self):
        return self.r.choice(self.NAMES)

    def hval(self, lead=None):
        self.seq += 1
        v = self.r.choice(["v%d", "value %d", "a\n\tb%d", "%d"]) % self.seq
        if lead is True or (lead is None and self.r.random() < 0.5):
            v = " " + v
        return v

    def tok(self):
        self.seq += 1
        r = self.r.random()
        if wire.BODYTOK == 1:
            return "\0" if r < self.p["bin"] / 2 else "\n" if r < self.p["bin"] else chr(33 + self.seq % 90)
        if r < self.p["bin"]:
            return "\0" + "%03d" % (self.seq % 1000) if r < self.p["bin"] / 2 else "%02d\r\n" % (self.seq % 100)
        return "t%03d" % (self.seq % 1000)

    def toks(self, rng):
        return [self.tok() for _ in range(self.r.randint(*rng))]

    def text(self, cls=None):
        self.seq += 1
        c = cls or self.r.choice("45")
        r = self.r
        if r.random() < .6:
            return r.choice([["%s51 %s.7.1 text%d" % (c, c, self.seq)], ["%s50 plain%d" % (c, self.seq)],
                             ["%s50-%s.1.1 line%d\r\n%s50 %s.1.1 more" % (c, c, self.seq, c, c)]])
        # reply codes without text or extended code, several lines, odd texts
        code = c + r.choice(["50", "51", "99", "00", "21"])
        ext = r.choice(["", "", c + ".0.0", c + ".7.1", c + ".123.999"])
        ls = [r.choice(["", "", "t%d" % self.seq, "100%% %%s %%n %d" % self.seq, "caf\xe9 \xff", "x" * r.choice((200, 900)), "a  b", "5.7 t", "-", "#", "450"])
              for _ in range(r.choice((1, 1, 2, 3)))]
        return ["\r\n".join(code + ("-" if i + 1 < len(ls) else " " if ext or l else "") + " ".join(x for x in (ext, l) if x) for i, l in enumerate(ls))]

    # -- a whole session
    def session(self, w, setup, sid, tag="", hub=None):
        s = Session(w, setup, sid, tag, hub)
        if self.hit("p_plan"):
            s.plan = (self.r.choice(("connect", "helo", "mail", "rcpt", "data", "header", "eoh", "body", "eom")), self.r.choice(self.p["plan"]))
        self.s = s
        if self.hit("p_wild"):
            s.wild_after = self.r.choice([0, 1, 2, 4, self.r.randint(3, 40), self.r.randint(3, 40)])
        over = True
        if self.p["p_frag"]:
            w.frag = self.cut
        try:
            try:
                self.run(s)
            except Stuck:
                over = False
            except Wild:
                s.pend = None
                s.ev.append({"t": "wild", "obs": {"mta": [], "kids": [[] for _ in range(s.n)]}})
                wild.rage(self, s)
            s.finish(over)
        except world.DaemonDied:
            return s, True
        return s, False

    def cut(self, data):
        """how the bytes of one write arrive"""
        r = self.r
        if r.random() >= self.p["p_frag"] or len(data) > 4000:
            return [data]
        if r.random() < .2 and len(data) < 60:
            return [data[i:i + 1] for i in range(len(data))]
        n = r.randint(1, 3)
        cuts = sorted({r.choice([r.randint(1, len(data)), min(len(data), r.randint(1, 6))]) for _ in range(n)} | {len(data)})
        return [data[a:b] for a, b in zip([0] + cuts, cuts)]

    def run(self, s):
        r = self.r
        for i in range(s.n):
            if self.hit("p_down"):
                s.listen(i, False)
                s.up0 = list(s.up)
        s.ev.clear()
        steps = ([x for x in NO if r.random() < 0.9] + [x for x in NR if r.random() < 0.9] +
                 [x for x in YES if r.random() < 0.9])
        acts = [a for a in ACTS if r.random() < self.p["p_act_mta"]]
        ver = r.choice([2, 3, 4, 5]) if self.hit("p_oldver") else 6
        if ver < 6:
            steps = [x for x in steps if x in ("noconnect", "nohelo", "nomail", "norcpt", "nobody", "nohdrs", "noeoh")]
            acts = [a for a in acts if a in ACTS[:6]]
        s.mta_neg(ver, acts, steps)
        self.drain(s)
        if s.reply != "neg" or s.closed:
            return
        self.macro(s, "connect")
        peer = "host%d" % self.seq, "4", "%d" % r.randint(1, 65535), "192.0.2.%d" % r.randint(1, 254)
        if self.hit("p_peer"):
            fam, addr = r.choice(sorted(ADDRS))
            peer = r.choice(sorted(HOSTS)), fam, "0" if fam == "L" else "" if fam == "U" else peer[2], addr
        if not self.cmd(s, "connect", *peer):
            return self.over(s)
        if self.unknown(s):
            return self.over(s)
        self.macro(s, "helo")
        if not self.cmd(s, "helo", "helo%d" % self.seq):
            return self.over(s)
        for _ in range(self.rng("msgs")):
            if s.closed:
                return
            if self.hit("p_rehelo"):
                if not self.cmd(s, "helo", "again%d" % self.seq):
                    return self.over(s)
            if self.unknown(s):
                return self.over(s)
            self.idle(s)
            if self.message(s) == "over":
                break
        return self.over(s)

    def over(self, s):
        if s.closed:
            return
        if self.r.random() < 0.7:
            s.mta("quit")
        else:
            s.mta_close()

    def unknown(self, s):
        if s.mver >= 3 and self.hit("p_unknown"):
            self.seq += 1
            return not self.cmd(s, "unknown", "BOGUS %d" % self.seq)
        return False

    def macro(self, s, k):
        if not self.hit("p_macro"):
            return
        pool = MACROS[k]
        ms = []
        for m in pool:
            if self.r.random() < 0.7:
                self.seq += 1
                ms.append((m, "mv%d" % self.seq))
        if ms:
            s.mta("macro", k, s=ms, hold=self.hit("p_glue"))

    def cmd(self, s, k, *a):
        """one MTA command and everything it takes; False if the session/stage ended"""
        s.mta(k, *a, hold=NRSTEP.get(k) in (s.ann or ()) and k in ("header", "eoh", "body") and self.hit("p_glue"))
        self.drain(s)
        if s.closed:
            return False
        return s.reply in ("continue", "skip") or (k in ("rcpt", "unknown") and s.reply in ("reject", "tempfail", "replycode"))

    def message(self, s):
        r = self.r
        self.macro(s, "mail")
        self.seq += 1
        dom = r.choice(("gmail.com", "GMail.com", "gmail.com.example", "notgmail.com", "clear-code.com", "softbank.ne.jp")) if self.hit("p_dom") else "x"
        if not self.cmd(s, "mail", "<from%d@%s>" % (self.seq, dom), *(["SIZE=%d" % self.seq] if r.random() < .3 else [])):
            return self.msg_end(s)
        ok = 0
        for _ in range(self.rng("rcpts")):
            if self.hit("p_abort"):
                s.mta("abort")
                return
            if self.hit("p_quit"):
                return "over"
            if self.unknown(s):
                return "over"
            self.idle(s)
            self.macro(s, "rcpt")
            self.seq += 1
            if not self.cmd(s, "rcpt", "<to%d@x>" % self.seq, *(["NOTIFY=NEVER"] if r.random() < .2 else [])):
                return self.msg_end(s)
            if s.reply in ("continue", "skip"):
                ok += 1
        if not ok:
            s.mta("abort")
            return
        if s.mver >= 4 and not self.hit("p_nodata"):
            self.macro(s, "data")
            if not self.cmd(s, "data"):
                return self.msg_end(s)
        lead = "leadspc" in (s.ann or ())
        plan = []
        for _ in range(self.rng("hdrs")):
            plan.append(("header", self.hname(), self.hval(lead if r.random() < .9 else False)))
        if not (r.random() < .03):
            plan.append(("eoh",))
        for _ in range(self.rng("bodies")):
            plan.append(("body",) + tuple(self.toks(self.p["bodylen"])))
        plan.append(("eom",) + tuple(self.toks(self.p["eomlen"]) if self.hit("eomchunk") else ()))
        skip = False
        for c in plan:
            if self.hit("p_abort"):
                s.mta("abort")
                return
            if self.hit("p_quit"):
                return "over"
            self.idle(s)
            if c[0] == "body" and skip:
                continue
            self.macro(s, c[0])
            if not self.cmd(s, *c):
                return self.msg_end(s, c[0])
            if s.reply == "skip":
                skip = True
        return

    def msg_end(self, s, k=None):
        if s.closed:
            return "over"
        if k == "eom" or s.reply == "aborted":
            return
        if self.r.random() < .5:
            s.mta("abort")

    # -- milters
    def busy(self, s):
        return [i for i in range(s.n) if s.awaiting[i] and s.usable(i)]

    def drain(self, s):
        """let the milters answer until the MTA has its reply"""
        r = self.r
        for _ in range(3000):
            if s.closed:
                return
            b = self.busy(s)
            if s.out is None:
                if not b or r.random() < 0.95 or s.reply == "neg":
                    if not [i for i in b if s.awaiting[i] != "neg"]:
                        return
                    # milters still owing an answer the MTA does not wait for
                    return
            if not b:
                # nobody can answer; only time can help
                if s.out is None:
                    return
                for d in (5, 300):
                    s.tick(d)
                    if s.out is None or self.busy(s):
                        break
                else:
                    raise Stuck("no answer to %s" % s.out)
                continue
            i = r.choice(b)
            if self.hit("p_cut"):
                if r.random() < .5:
                    s.mta_close()
                else:
                    s.mta("quit")
                return
            if s.out in MSG and self.hit("p_abort_eom" if s.out == "eom" else "p_abort_mid"):
                s.mta_abort_mid()
                return
            if self.hit("p_unsol"):
                j = r.randrange(s.n)
                if s.usable(j) and not s.awaiting[j] and s.conn[j] == "up":
                    self.unsolicited(s, j)
                    continue
            self.answer(s, i)
        raise Stuck("endless")

    def idle(self, s):
        for i in range(s.n):
            if s.usable(i) and s.conn[i] == "up" and not s.awaiting[i]:
                if self.hit("p_idle_close"):
                    s.kid_close(i)
                elif self.hit("p_unsol"):
                    self.unsolicited(s, i)

    def unsolicited(self, s, i):
        k = self.r.choice(self.p["unsol"])
        s.unsol = True
        self.verdict(s, i, k)

    def verdict(self, s, i, k):
        if k == "replycode":
            s.kid(i, k, *self.text())
        elif k in MOD_ACTION:
            self.mod(s, i, k)
        else:
            s.kid(i, k)

    def answer(self, s, i):
        r, p = self.r, self.p
        k = s.awaiting[i]
        if self.hit("p_junk"):
            return s.kid_junk(i, r.choice(wild.MALFORMED if k != "neg" else wild.MALFORMED + [b"c", b"", b"o" + wire.neg(2, [], [])[5:]]))
        if k == "neg":
            return self.nego(s, i)
        # a planned fault: its stage is drawn evenly, unlike that of the faults drawn at every answer
        if s.plan and s.plan[0] == k and r.random() < .6:
            what, s.plan = s.plan[1], None
            if what == "close":
                return s.kid_close(i)
            if what == "tick":
                return s.tick(s.setup.rto if k != "eom" else s.setup.eto)
            if what == "bad":
                return s.kid(i, r.choice(["connfail", "shutdown"]))
            if what == "junk":
                return s.kid_junk(i, r.choice(wild.MALFORMED))
            if what == "verdict":
                return self.verdict(s, i, r.choice(["accept", "reject", "tempfail", "discard", "replycode", "progress", "skip"]))
            if what == "mod" and k != "eom":
                s.unsol = True
                self.mod(s, i, r.choice(p["modset"]))
                if s.awaiting[i] != k:
                    return
        if self.hit("p_close"):
            return s.kid_close(i)
        if self.hit("p_timeout"):
            return s.tick(r.choice([s.setup.rto, s.setup.rto + 1]) if k != "eom" else s.setup.eto)
        if self.hit("p_late"):
            s.tick(r.choice([1, 3]))
            if s.awaiting[i] != k:
                return
        if self.hit("p_bad"):
            return s.kid(i, r.choice(["connfail", "shutdown"]))
        if k != "eom" and self.hit("p_early_mod"):
            s.unsol = True
            self.mod(s, i, r.choice(p["modset"]))
            if s.awaiting[i] != k:
                return
        if k == "eom":
            if self.hit("p_slow"):
                for _ in range(r.randint(1, 4)):
                    s.tick(r.choice([1, s.setup.eto // 2, s.setup.eto // 2 + 1, s.setup.eto - 1]))
                    if s.awaiting[i] != k:
                        return
                    x = r.random()
                    if x < .6:
                        s.kid(i, "progress", hold=self.hit("p_glue"))
                    elif x < .75 and p["mods"][1]:
                        self.mod(s, i, r.choice(p["modset"]))
                    if s.awaiting[i] != k:
                        return
            for _ in range(self.rng("mods")):
                self.mod(s, i, r.choice(p["modset"]))
                if self.hit("p_progress"):
                    s.kid(i, "progress", hold=self.hit("p_glue"))
                if s.awaiting[i] != k:
                    return
        if k == "body" and "skip" in s.ksteps[i] and self.hit("p_skip"):
            return s.kid(i, "skip")
        w = p["w_stage"].get(k) or (p["w_eom"] if k == "eom" and p["w_eom"] else p["w"])
        self.verdict(s, i, self.pick(w))

    def mod(self, s, i, k):
        r = self.r
        self.seq += 1
        h = bool(s.awaiting[i]) and self.hit("p_glue")
        if k == "addhdr":
            s.kid(i, k, self.hname(), self.hval(), hold=h)
        elif k == "inshdr":
            s.kid(i, k, str(r.choice([0, 0, 1, 2, 3, 9])), self.hname(), self.hval(), hold=h)
        elif k == "chghdr":
            s.kid(i, k, str(r.choice([1, 1, 1, 2, 3])), self.hname(), "" if r.random() < .4 else self.hval(), hold=h)
        elif k == "replbody":
            s.kid(i, k, *self.toks(p["bodylen"] if (p := self.p) else None), hold=h)
        elif k == "chgfrom":
            s.kid(i, k, "<new%d@x>" % self.seq, *(["SIZE=1"] if r.random() < .3 else []), hold=h)
        elif k == "addrcpt":
            s.kid(i, k, "<add%d@x>" % self.seq, hold=h)
        elif k == "addrcptpar":
            s.kid(i, k, "<addp%d@x>" % self.seq, "NOTIFY=NEVER", hold=h)
        elif k == "delrcpt":
            s.kid(i, k, "<to%d@x>" % r.randint(1, self.seq), hold=h)
        elif k == "quarantine":
            s.kid(i, k, "why%d" % self.seq, hold=h)

    def nego(self, s, i):
        r = self.r
        if self.hit("p_neg_fail"):
            c = r.choice(["close", "tick", "ver", "bad"])
            if c == "close":
                return s.kid_close(i)
            if c == "tick":
                return s.tick(s.setup.rto)
            if c == "ver":
                return s.kid_neg(i, s.mver + 1, ACTS[:1], [])
            return s.kid(i, r.choice(["continue", "reject", "accept"]))
        ver, acts, steps = s.offer
        want = [x for x in steps if r.random() < (self.p["p_step_no"] if x in NO else
                                                   self.p["p_step_nr"] if x in NR else self.p["p_step_yes"])]
        a = [x for x in acts if r.random() < self.p["p_act"]]
        mr = {}
        if self.hit("p_mreq") and ver >= 6 and "setsymlist" in acts:
            for st, pool in (("connect", ["j", "_", "{if_name}"]), ("helo", ["{cipher}"]), ("mail", ["i", "{auth_type}"]),
                             ("rcpt", ["{rcpt_addr}"]), ("data", ["{d1}"]), ("eoh", ["{e1}"]), ("eom", ["i", "{msg_id}"])):
                if r.random() < .4:
                    mr[st] = r.sample(pool, r.randint(1, len(pool)))
            if mr and "setsymlist" not in a:
                a.append("setsymlist")
        v = ver if not self.hit("p_oldver") else r.randint(2, ver)
        if v < 6:
            want = [x for x in want if x in ("noconnect", "nohelo", "nomail", "norcpt", "nobody", "nohdrs", "noeoh")]
            mr = {}
        s.kid_neg(i, v, a, want, mr)


MSG = ("mail", "rcpt", "data", "header", "eoh", "body", "eom")
BASIC_MODS = ("addhdr", "inshdr", "chghdr", "replbody", "chgfrom", "addrcpt", "addrcptpar", "delrcpt", "quarantine")
