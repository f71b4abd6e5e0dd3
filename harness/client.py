"""Sessions with real filters written with the client library (C01-C04)."""
import collections, hashlib, json, os, random, socket, struct, subprocess, sys, time
import mmbuild, sessions, wire, world
from world import HarnessError, DaemonDied

NULL = "<NULL>"
STATUS = {"continue": 0, "reject": 1, "discard": 2, "accept": 3, "tempfail": 4, "default": 5, "notchange": 6, "noreply": 7, "skip": 8,
          "progress": 9, "allopts": 10, "invalid": 42}
CBS = ["neg", "connect", "helo", "mail", "rcpt", "data", "header", "eoh", "body", "eom", "abort", "unknown"]
STAGES = ["connect", "helo", "mail", "rcpt", "data", "eom", "eoh"]


def enc(a):
    return "-" if a is None else "x" + (a if isinstance(a, bytes) else wire.b(a)).hex()


def dec(w):
    return None if w == "-" else bytes.fromhex(w[1:])


class MtaDec:
    """decodes what the MTA receives; joins the pieces of a replaced body"""

    def __init__(self):
        self.left = b""
        self.over = 0

    def __call__(self, d):
        if len(d) > 65536:
            self.over += 1
        if d[:1] == b"b":
            x = self.left + d[1:]
            n = len(x) // wire.BODYTOK * wire.BODYTOK
            self.left = x[n:]
            return ("replbody", wire.tokens(x[:n]), [])
        if self.left and d[:1] not in (b"p",):
            x, self.left = self.left, b""
            return ("torn", ["%d bytes of body missing before %s" % (len(x), d[:1])], [])
        return wire.dec_rep(d)


class ClientWorld(world.World):
    def __init__(self, api, cbs, timeout=0, buffer=0, backend="glib", bld=None):
        self.api, self.cbs, self.timeout, self.buffer, self.backend = api, cbs, timeout, buffer, backend
        super().__init__(bld=bld)

    def write_config(self, config):
        self.config = ""

    def start(self, wait=True):
        a, b = socket.socketpair()
        a.setblocking(False)
        self.ctl, self.cunf, self.ids, self.rid = a, wire.Unframer(), {}, {}
        self.ctl_eof = False
        env = {"PATH": os.environ["PATH"], "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": self.dir,
               "TMPDIR": os.path.join(self.dir, "run"), "VCLOCK_FILE": self.vfile, "LD_PRELOAD": world._shim(self.bld)}
        if self.backend == "libev":
            env["MILTER_EVENT_LOOP_BACKEND"] = "libev"
        env.update(self.env)
        self.log = open(os.path.join(self.dir, "log"), "ab")
        self.proc = subprocess.Popen(
            [os.path.join(self.bld, "bin/cmilter"), self.api, str(b.fileno()), "unix:" + self.mta_path, str(self.timeout),
             str(self.buffer), "," + ",".join(self.cbs) + ",", self.backend],
            stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=env, cwd=os.path.join(self.dir, "run"),
            user=world.NOBODY.pw_uid, group=world.NOBODY.pw_gid, extra_groups=[], start_new_session=True, pass_fds=[b.fileno()])
        b.close()
        self.pids = [self.proc.pid]
        t0 = time.time()
        while not os.path.exists(self.mta_path):
            if self.proc.poll() is not None:
                raise DaemonDied(self.proc.returncode, self.logtail())
            if time.time() - t0 > 60:
                raise HarnessError("filter does not listen\n" + self.logtail())
            time.sleep(0.002)
        self.wait_idle()

    def connect_mta(self, sid, path=None):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.connect(path or self.mta_path)
        s.setblocking(False)
        self.add_peer((sid, "mta"), s, MtaDec())
        self.cur = sid

    def control(self, sid, words):
        d = " ".join([words[0], str(self.ids[sid])] + words[1:]).encode()
        self.cur = sid
        self.ctl.setblocking(True)
        self.ctl.sendall(struct.pack(">I", len(d)) + d)
        self.ctl.setblocking(False)

    def _drain(self):
        out = super()._drain()
        while not self.ctl_eof:
            try:
                d = self.ctl.recv(1 << 20)
            except BlockingIOError:
                break
            if not d:
                self.ctl_eof = True
                break
            for f in self.cunf.feed(d):
                w = f.decode().split(" ")
                i = int(w[1])
                if i not in self.rid:
                    self.rid[i] = self.cur
                    self.ids[self.cur] = i
                out.append(((self.rid[i], "ctl"), w[0], w[2:], []))
        return out

    def stop(self):
        super().stop()
        self.ctl.close()


def cb_args(name, ws):
    a = [dec(w) for w in ws]
    if name == "neg":
        return [wire.names(int(a[0]), wire.ACTIONS), wire.names(int(a[1]), wire.STEPS)]
    if name in ("body", "eom"):
        return [t for x in a for t in wire.tokens(x)]
    return [NULL if x is None else wire.u(x) for x in a]


class Sess:
    """one MTA session with the filter"""

    def __init__(self, w, sid, cfg, tag):
        self.w, self.sid, self.cfg, self.tag = w, sid, cfg, tag
        self.ev = []
        self.pend = None
        self.closed = False          # filter said close
        self.mine = False            # we closed
        self.eof = False
        self.foreign = []

    def split(self, evs):
        obs = dict(mta=[], ctl=[], eof=False, over=0)
        for key, k, a, s in evs:
            if key[0] != self.sid:
                self.foreign.append((key, k, a, s))
                continue
            if key[1] == "ctl":
                if k == "cb":
                    n = a[0]
                    if n == "close":
                        self.closed = True
                        self.pend = None
                        obs["ctl"].append(dict(k="cb", n=n, a=[]))
                    else:
                        self.pend = n
                        self.prog = False
                        args = cb_args(n, a[1:])
                        if n == "connect":
                            args = conn_args(args)
                        obs["ctl"].append(dict(k="cb", n=n, a=args))
                else:
                    obs["ctl"].append(dict(k="res", n={"0": "fail", "1": "ok", "2": "fails without an error", "3": "succeeds with an error"}[a[0]],
                                           a=[NULL if dec(x) is None else wire.u(dec(x)) for x in a[1:]]))
            elif k == "eof":
                self.eof = True
                obs["eof"] = True
            else:
                obs["mta"].append(dict(k=k, a=a, s=s))
        p = self.w.peers.get((self.sid, "mta"))
        if p is not None:
            obs["over"], p.dec.over = p.dec.over, 0
        return obs

    def rec(self, e, **more):
        """settle, record"""
        try:
            evs = self.w.settle()
        except DaemonDied as x:
            e["obs"] = dict(mta=[dict(k="died", a=[str(x.status)], s=[])], ctl=[], eof=True, over=0)
            self.ev.append(e)
            raise
        e["obs"] = self.split(evs)
        self.ev.append(e)
        return e["obs"]

    def mta(self, k, *a, s=(), neg=None):
        if neg:
            v, ac, st = neg
            data = wire.neg(v, ac, st)
            p = dict(k="neg", a=[], s=[["v", str(v)]] + [["a", x] for x in ac] + [["p", x] for x in st])
        else:
            data = wire.cmd(k, *a, s=s)
            p = dict(k=k, a=list(a), s=[list(x) for x in s])
        frag, self.w.frag = self.w.frag, None if self.pend and not self.prog else self.w.frag
        self.w.send((self.sid, "mta"), data)
        self.w.frag = frag
        return self.rec(dict(t="mta", p=p))

    def call(self, f, *a):
        ws = list(a)
        if f == "replacebody":
            ws = [wire.body(a)]
        elif f == "setsymlist":
            ws = [str(STAGES.index(a[0][1:])), " ".join(a[1:])]
        self.w.control(self.sid, ["call", f] + [enc(x) for x in ws])
        return self.rec(dict(t="call", f=f, a=[NULL if x is None else x for x in a]))

    def ret(self, st, opt=None):
        e = dict(t="ret", st=st)
        ws = ["ret", str(STATUS[st])]
        if opt:
            e["oa"], e["op"] = opt
            ws += [enc(str(wire.flags(opt[0], wire.ACTIONS))), enc(str(wire.flags(opt[1], wire.STEPS)))]
        if st == "progress":
            self.prog = True
        else:
            self.pend = None
        self.w.control(self.sid, ws)
        return self.rec(e)

    def close(self):
        self.mine = True
        self.w.close((self.sid, "mta"))
        return self.rec(dict(t="close"))

    def tick(self, d):
        self.w.advance(d)
        return self.rec(dict(t="tick", d=d))

    def trace(self):
        return dict(cfg=dict(self.cfg), ev=self.ev, tag=self.tag)


def conn_args(a):
    """host, family, port, address as in the connect packet"""
    if len(a) == 2:
        return [a[0], {"none": "U", "U": "U"}.get(a[1], a[1]), "", ""]
    if a[1] == "L":
        return [a[0], "L", "0", a[2]]
    return a


TXT = ["", "x", "hello world", "100%s %d", "a b  c", "caf\xe9", "\xff\x80", "5.7.1 no", "#", "line one\nline two", "one\r\ntwo\r\nthree",
       "tail\n", "\nhead", "a\n\nb", "q\r", "x" * 300]
CODES = ["450", "451", "499", "400", "550", "554", "599", "500", "421"]
BADCODES = ["399", "600", "250", "0", "45", "4500", "1", "354"]
ODDCODES = ["450abc", " 450", "+450", "45O", "", None, "0450", "4.0", "-450"]
EXTS = [None, None, "4.0.0", "5.0.0", "4.7.1", "5.7.1", "5.123.999", "4.999.0", "4.1.10"]
BADEXTS = ["", "2.0.0", "3.1.1", "5", "5.", "5.1", "5.1.", "5..1", ".1.1", "5.1.1.1", "5.1000.1", "5.1.1000", "5.a.1", "5.1.a", "55.1.1", "5.1.1 ", " 5.1.1",
           "4.x", "4.-1.2", "5.1.0001"]


class Gen:
    def __init__(self, r, **p):
        self.r = r
        d = dict(api=("smfi", "client"), unset=.1, p_call=.5, maxcalls=4, bad=.25, reply=.25, mods=.6, p_neg=.6, p_intr=.03, tick=.02, progress=.25, frag=.2,
                 tok=(4,), msgs=(1, 3), early=.12, eomchunk=.3, backend=("glib",), macro=.5, midcall=.15, full=.6, buffers=(0, 0, 1, 64, 1000, 200000))
        d.update(p)
        self.p = d

    def ch(self, *a):
        return self.r.choice(a)

    def p_(self, x):
        return self.r.random() < x

    def setup(self):
        r, p = self.r, self.p
        api = r.choice(p["api"])
        cbs = [c for c in CBS if not self.p_(p["unset"])]
        if self.p_(.4):
            cbs = CBS[:]
        buffer = r.choice(p["buffers"]) if api == "client" else 0
        timeout = r.choice((0, 30, 300))
        self.tok = r.choice(p["tok"])
        wire.set_token(self.tok)
        return dict(api=api, cbs=cbs, buffer=buffer, timeout=timeout, backend=r.choice(p["backend"]))

    # -- texts
    def word(self):
        r = self.r
        return r.choice(["a", "bb", "<user@example.com>", "X-Test", "value with blanks", "caf\xe9", "%n%s", "\x01", "x" * 200, "{b}", "@", "1"]) + str(r.randrange(9))

    def toks(self, n):
        self.tn = getattr(self, "tn", 0)
        o = []
        for _ in range(n):
            self.tn += 1
            o.append("%04x" % (self.tn & 0xffff))
        return o

    def null(self, v, x=.3):
        """sometimes an invalid value"""
        return self.ch(None, "") if self.p_(self.p["bad"] * x) else v

    # -- calls
    def setreply(self, api):
        r = self.r
        b = self.p["bad"]
        code = r.choice(CODES) if not self.p_(b) else r.choice(BADCODES)
        if api == "smfi" and self.p_(b * .4):
            code = r.choice(ODDCODES)
        ext = r.choice(EXTS)
        if ext and code and len(code) == 3 and self.p_(.85):
            ext = code[0] + ext[1:]
        if self.p_(b):
            ext = r.choice(BADEXTS)
        if api == "smfi" and self.p_(.3):
            ls = [r.choice(["", "one", "two words", "x" * 980, "%s"]) for _ in range(r.randrange(1, 4))]
            if self.p_(b):
                ls[r.randrange(len(ls))] = r.choice(["x" * 981, "a\rb", "\r"])
            return ("setmlreply", code, ext) + tuple(ls)
        msg = r.choice(TXT + [None])
        return ("setreply", code, ext, msg)

    def mod(self, api, acts):
        r = self.r
        neg = lambda v: "-%d" % r.randrange(1, 5) if api == "smfi" and self.p_(self.p["bad"] * .3) else str(v)
        fs = ["addheader", "addheader", "insheader", "chgheader", "chgfrom", "addrcpt", "addrcptpar", "delrcpt", "replacebody", "quarantine"]
        if api == "client":
            fs.append("delheader")
        f = r.choice(fs)
        W = self.word
        if f == "addheader":
            return (f, self.null(W()), None if self.p_(self.p["bad"] * .2) else r.choice([W(), W(), ""]))
        if f == "insheader":
            return (f, neg(r.choice([0, 1, 3, 77])), self.null(W()), None if self.p_(self.p["bad"] * .2) else W())
        if f == "chgheader":
            return (f, self.null(W()), neg(r.choice([0, 1, 2, 9])), r.choice([None, W(), W(), ""]))
        if f == "delheader":
            return (f, self.null(W()), str(r.choice([0, 1, 2])))
        if f == "chgfrom":
            return (f, self.null(W()), r.choice([None, "SIZE=1", "A=B C=D"]))
        if f == "addrcptpar":
            return (f, self.null(W()), r.choice(["NOTIFY=NEVER", "X=Y Z"]))
        if f in ("addrcpt", "delrcpt", "quarantine"):
            return (f, W() if f == "quarantine" and api == "client" else self.null(W()))
        return (f,) + tuple(self.toks(r.choice([1, 2, 5, 30] if self.tok < 100 else [1, 2, 3, 5])))

    def calls(self, s):
        """calls of the running callback"""
        r, p = self.r, self.p
        k = s.pend
        api = s.cfg["api"]
        eom = s.cmd == "eom" and k == "eom"
        if not self.p_(p["p_call"] if not eom else p["mods"]):
            return
        for _ in range(r.randrange(1, p["maxcalls"] + (4 if eom else 1))):
            x = r.random()
            if k == "neg":
                if x < .7 and s.offer and "setsymlist" in s.offer[0]:
                    s.call("setsymlist", "m" + r.choice(STAGES), *r.sample(["i", "{mail_addr}", "j", "_", "{x}"], r.randrange(1, 4)))
                elif x < .85:
                    s.call("setpriv", "n%d" % r.randrange(99))
                continue
            if eom and x < .55:
                s.call(*self.mod(api, None))
                if self.p_(.1):
                    s.call("progress")
            elif x < .55 and self.p_(p["midcall"]) and k != "body":
                s.call(*self.mod(api, None))
            elif x < .75 and k != "abort":
                s.call(*self.setreply(api))
                if api == "client" and self.p_(.4):
                    s.call("format")
            elif x < .85:
                s.call("getmacro", r.choice(["i", "{i}", "j", "{mail_addr}", "mail_addr", "{x}", "nope", "{}"]))
            elif x < .87:
                s.call("setsymlist", "m" + r.choice(STAGES), "i")
            elif x < .93:
                s.call("setpriv", "p%d" % r.randrange(99))
            else:
                s.call("getpriv")

    def status(self, s):
        r = self.r
        k = s.pend
        if k == "neg":
            return r.choice(["continue"] * 6 + ["allopts"] * 2 + ["reject"])
        if self.p_(.6):
            return "continue"
        o = ["continue", "accept", "reject", "tempfail", "reject", "tempfail", "discard",
             "invalid" if s.cfg["api"] == "smfi" else "default" if s.prog else r.choice(["default", "notchange"])]
        if k == "body":
            o.append("skip")
        nr = {"connect": "nr_conn", "helo": "nr_helo", "mail": "nr_mail", "rcpt": "nr_rcpt", "data": "nr_data", "header": "nr_hdr", "eoh": "nr_eoh",
              "body": "nr_body", "unknown": "nr_unknown"}.get(k)
        if nr in s.steps and not (k == "body" and s.cmd == "eom"):
            o += ["noreply"] * 6
        return r.choice(o)

    def settle_cb(self, s):
        """run callbacks until the filter waits for the MTA; -> False when the session is over"""
        n = 0
        last = None
        while s.pend and not s.closed:
            if s.cmd in ("connect", "mail", "rcpt", "header", "eoh", "body", "eom", "helo", "data", "unknown") and not s.mine and self.p_(self.p["p_intr"]):
                # the MTA does not wait (only a postponed answer lets the filter notice)
                if s.cfg["api"] == "smfi" or s.prog:
                    x = self.ch("abort", "quit", "close") if not (s.cmd == "unknown" and not s.inmsg) else self.ch("quit", "close")
                    was = s.cmd
                    if x == "abort":
                        if s.cfg["api"] == "smfi":
                            s.queued = True
                        s.cmd_after = "abort"
                        s.mta("abort")
                        if s.cfg["api"] != "smfi":
                            s.cmd = "abort"
                            s.inmsg = False
                            if "abort" not in s.cfg["cbs"]:
                                s.pend = None      # the postponed answer is given up
                    elif x == "quit":
                        s.mta("quit")
                        s.mine = s.mine or False
                        s.quit = True
                    else:
                        s.close()
                    if s.quit or s.mine:
                        if s.cfg["api"] != "smfi" or not s.pend:
                            return False
                    continue
            self.calls(s)
            if s.closed:
                break
            st = self.status(s)
            if s.cfg["api"] == "client" and not s.prog and self.p_(self.p["progress"]):
                s.ret("progress")
                continue
            opt = None
            if s.pend == "neg" and st == "continue":
                oa, op = s.offer
                opt = ([x for x in oa if self.p_(.8)] if not self.p_(self.p["full"]) else oa, [x for x in op if self.p_(.35)])
            k, c = s.pend, s.cmd
            o = s.ret(st, opt)
            last = st
            if s.queued:
                s.queued = False
                s.cmd = "abort"
                s.inmsg = False
            n += 1
        return not (s.closed or s.mine or s.quit)

    def cmd(self, s, k, *a, sym=(), neg=None):
        """one MTA command with its answer; -> kind of the answer, None when the session ended"""
        if sym and k not in ("neg", "unknown", "abort"):
            s.mta("macro", k, s=sym)
        s.cmd = k
        s.mta(k, *a, neg=neg)
        mark = len(s.ev) - 1
        if not self.settle_cb(s):
            return None
        if s.eof or s.closed:
            return None
        if self.p_(self.p["tick"]) and s.ev[-1]["obs"]["mta"]:
            t = s.cfg["timeout"]
            self.ticked = True
            s.tick(self.r.choice([t // 2, t // 2, t + 1]) if t < 5000 else t // 3)
            if s.closed:
                return None
        last = None
        for e in s.ev[mark:]:
            for pk in e["obs"]["mta"]:
                if pk["k"] in ("continue", "accept", "reject", "tempfail", "discard", "skip", "replycode", "neg"):
                    last = pk["k"]
        return last or "none"

    def sym(self, k):
        r = self.r
        if not self.symon:
            return ()
        return tuple((n, "%s.%s.%d" % (n, k, r.randrange(99))) for n in r.sample(["i", "j", "mail_addr", "x", "_"], r.randrange(1, 4)))

    def session(self, w, st, sid, tag):
        r, p = self.r, self.p
        cfg = dict(api=st["api"], cbs=st["cbs"], timeout=st["timeout"] or 7210)
        w.connect_mta(sid)
        s = Sess(w, sid, cfg, tag)
        s.steps, s.offer, s.queued, s.quit, s.prog, s.inmsg = [], None, False, False, False, False
        self.symon = self.p_(p["macro"])
        w.frag = None
        if self.p_(p["frag"]):
            n = r.choice((1, 2, 3, 7))
            w.frag = lambda d: ([d[i:i + n] for i in range(0, len(d), n)] if len(d) < 400 else [d[:5], d[5:]])
        died = False
        try:
            self.talk(w, s)
            if not s.closed and not s.mine and not s.quit:
                if self.p_(.5):
                    s.mta("quit")
                else:
                    s.close()
        except DaemonDied:
            died = True
        w.peers.pop((sid, "mta"), None)
        return s, died

    def talk(self, w, s):
        r, p = self.r, self.p
        oa = [n for n, _ in wire.ACTIONS if self.p_(.85)]
        # an MTA which is told to leave out the steps it offered has nothing left to say
        op = [n for n, _ in wire.STEPS if n.startswith("nr_") or n in ("skip", "rcptrej", "leadspc") if self.p_(.5)]
        s.offer = (oa, op)
        if self.p_(.95):
            x = self.cmd(s, "neg", neg=(r.choice([2, 4, 6]), oa, op))
            if x != "neg":
                return
            last = [e for e in s.ev if any(q["k"] == "neg" for q in e["obs"]["mta"])][-1]
            s.steps = [b for n, b in [q for q in last["obs"]["mta"] if q["k"] == "neg"][0]["s"] if n == "p"]
        else:
            s.steps = []
        W = self.word
        if self.p_(.95):
            host, fam, port, addr = r.choice([("mx.example", "4", "25", "192.0.2.1"), ("[::1]", "6", "2525", "2001:db8::1"), ("h", "4", "0", "127.0.0.1"),
                                              ("localhost", "L", "0", "/tmp/sock"), ("unk", "U", "", "")])
            x = self.cmd(s, "connect", host, fam, port, addr, sym=self.sym("connect"))
            if x is None:
                return
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            if self.cmd(s, "helo", W(), sym=self.sym("helo")) is None:
                return
        for _ in range(r.randrange(p["msgs"][0], p["msgs"][1] + 1)):
            if self.p_(.05) and self.cmd(s, "unknown", W()) is None:
                return
            s.inmsg = True
            if not self.message(s):
                return
            s.inmsg = False

    def abort(self, s):
        return self.cmd(s, "abort") is not None

    def message(self, s):
        """-> False when the session is over"""
        r, p = self.r, self.p
        W = self.word
        neg = ("reject", "tempfail", "discard", "replycode")

        def go(*a, **k):
            x = self.cmd(s, *a, **k)
            if x is None:
                raise Over()
            if s.cmd == "abort":
                raise Aborted()
            return x
        try:
            x = go("mail", W(), sym=self.sym("mail"))
            if x in neg and self.p_(.7):
                return self.abort(s) if self.p_(.6) else True
            for _ in range(r.randrange(1, 4)):
                go("rcpt", W(), sym=self.sym("rcpt") if self.p_(.8) else ())
                if self.p_(p["early"] * .5):
                    return self.abort(s)
                if self.p_(.05):
                    go("unknown", W())
            go("data", sym=self.sym("data"))
            if self.p_(p["early"] * .5):
                return self.abort(s)
            for _ in range(r.randrange(0, 4)):
                go("header", W(), r.choice([W(), "", " x"]), sym=self.sym("header") if self.p_(.2) else ())
                if self.p_(p["early"] * .3):
                    return self.abort(s)
            go("eoh", sym=self.sym("eoh") if self.p_(.5) else ())
            skipped = False
            for _ in range(r.randrange(0, 4)):
                if go("body", *self.toks(r.choice([1, 3, 8] if self.tok < 100 else [1, 2])), sym=self.sym("body") if self.p_(.2) else ()) == "skip":
                    skipped = True
                    break
                if self.p_(p["early"] * .3):
                    return self.abort(s)
            ck = self.toks(r.randrange(1, 3)) if self.p_(p["eomchunk"]) and not skipped else []
            go("eom", *ck, sym=self.sym("eom"))
            if self.p_(.15):
                s.inmsg = False
                return self.abort(s)
        except Aborted:
            return True
        except Over:
            return False
        return True


class Aborted(Exception):
    pass


class Over(Exception):
    pass


# ------------------------------------------------------------------- families
F = {
    "plain": {},
    "replies": dict(reply=1, mods=.3, midcall=.05, p_call=.7, bad=.4),
    "mods": dict(mods=1, maxcalls=6, p_call=.2, early=.02, msgs=(1, 2)),
    "badmods": dict(mods=.9, bad=.7, midcall=.6, full=.3, early=.03),
    "sparse": dict(unset=.5, p_call=.3),
    "big": dict(tok=(1000, 4096, 30000), mods=1, p_call=.1, msgs=(1, 1), early=0, buffers=(0, 1000, 65536, 200000), frag=.05),
    "intr": dict(p_intr=.2, progress=.5, early=.3),
    "macros": dict(macro=1, p_call=.9, mods=.2, msgs=(1, 4), early=.2),
    "ev": dict(backend=("libev",)),
    "idle": dict(tick=.3, p_call=.2),
}
P = {
    "C01": ({"plain": 2, "sparse": 2, "intr": 1, "replies": 1, "ev": 1, "idle": 1}, {"verdict", "neg", "eof", "died", "cb"}),
    "C02": ({"mods": 3, "badmods": 2, "big": 1, "intr": 1, "plain": 1}, {"mods", "modres", "died", "over"}),
    "C03": ({"replies": 4, "plain": 1, "intr": 1}, {"text", "setres", "died"}),
    "C04": ({"macros": 3, "sparse": 1, "plain": 1, "intr": 1, "big": 1, "ev": 1}, {"cb", "close", "getres", "died", "eof"}),
}
MODS = {"addhdr", "inshdr", "chghdr", "chgfrom", "addrcpt", "addrcptpar", "delrcpt", "replbody", "quarantine", "torn"}
VERD = {"continue", "accept", "discard", "skip", "reject", "tempfail", "replycode", "progress"}


def kinds(m):
    """what a mismatch is about"""
    o = set()
    e, obs, exp = m["event"], m["obs"], m["exp"]
    if any(p["k"] == "died" for p in obs["mta"]):
        return {"died"}
    if obs.get("over"):
        o.add("over")
    if not m["mta"]:
        gm = [p for p in obs["mta"] if p["k"] in MODS]
        em = [p for p in exp["mta"] if p["k"] in MODS]
        gv = [p for p in obs["mta"] if p["k"] in VERD]
        ev = [p for p in exp["mta"] if p["k"] in VERD]
        fl = lambda q: [(p["k"], tuple([t]) if p["k"] == "replbody" else tuple(p["a"])) for p in q for t in (p["a"] if p["k"] == "replbody" else [0])]
        if fl(gm) != fl(em):
            o.add("mods")
        if [p["k"] for p in gv] != [p["k"] for p in ev]:
            o.add("verdict")
            if "replycode" in [p["k"] for p in gv + ev]:
                o.add("text")
        elif [p["a"] for p in gv] != [p["a"] for p in ev]:
            o.add("text")
        if any(p["k"] == "neg" for p in obs["mta"] + exp["mta"]):
            o.add("neg")
        if not o:
            o |= {"mods", "verdict"}
    if not m["ctl"]:
        f = e.get("f", "")
        if e["t"] == "call":
            o.add("setres" if f in ("setreply", "setmlreply", "format") else "modres" if f in
                  ("addheader", "insheader", "chgheader", "delheader", "chgfrom", "addrcpt", "addrcptpar", "delrcpt", "replacebody", "quarantine", "progress") else "getres")
        else:
            o.add("cb")
    if obs["eof"] != exp["eof"]:
        o.add("eof")
    return o


def gather(seed, fam, nses, bld, until=None):
    r = random.Random("%s/%s" % (seed, fam))
    g = Gen(r, **F[fam])
    st = g.setup()
    out = []
    w = ClientWorld(st["api"], st["cbs"], st["timeout"], st["buffer"], st["backend"], bld)
    try:
        for k in range(nses):
            if until and time.time() > until:
                break
            s, died = g.session(w, st, k + 1, "%s/%s/%d" % (seed, fam, k))
            out.append(s.trace())
            if died or getattr(s, "foreign", None):
                break
    finally:
        w.stop()
        wire.set_token(4)
    return out


def fe(e):
    if e["t"] == "mta":
        return "MTA: " + sessions.fp(e["p"])
    if e["t"] == "call":
        return "%s(%s)" % (e["f"], ", ".join(map(str, e["a"])))
    if e["t"] == "ret":
        return "return " + e["st"]
    return e["t"] + (" %d" % e["d"] if "d" in e else "")


def fo(o):
    return "MTA<-[%s] %s%s" % (", ".join(sessions.fp(p) for p in o["mta"]), " ".join("%s:%s%s" % (c["k"], c["n"], c["a"] or "") for c in o["ctl"]),
                               " eof" if o["eof"] else "")


def describe(t, m):
    return "[%s] after %d steps, on [%s]: got %s; expected MTA<-%s %s (differs: %s)" % (
        t["cfg"]["api"], m["step"] - 1, fe(m["event"])[:300], fo(m["obs"])[:500], json.dumps([(p["k"], p["a"]) for p in m["exp"]["mta"]])[:300],
        json.dumps([(c["k"], c["n"], c["a"]) for c in m["exp"]["ctl"]])[:300], ", ".join(sorted(kinds(m))))


def shape(t):
    h = [(e["t"], e.get("f"), e.get("st"), e["p"]["k"] if "p" in e else None, len(e.get("a", ()))) for e in t["ev"]]
    return hashlib.md5(repr((t["cfg"], h)).encode()).hexdigest()


def shard(job):
    prop, jobs, bld, until = job
    import traceback
    res = dict(traces=0, events=0, states=0, setups=0, shapes=set(), bad=[], other=0, sample=None, err=[], fams=collections.Counter(), kinds=collections.Counter())
    trs, meta = [], []
    for fam, seed, nses in jobs:
        if until and time.time() > until:
            break
        try:
            o = gather(seed, fam, nses, bld, until)
        except (HarnessError, DaemonDied) as x:
            res["bad"].append(dict(fam=fam, seed=seed, nses=nses, cats=["stuck"], what=str(x)[-1500:], trace=None, step=0, module="client"))
            continue
        except Exception:
            res["err"].append(traceback.format_exc()[-1500:])
            continue
        res["setups"] += 1
        trs += o
        meta += [(fam, seed, nses)] * len(o)
    if trs:
        mm, states = sessions.tlc(trs, "ClientTrace")
        res["states"] = states
        for m in mm:
            t = trs[m["trace"] - 1]
            fam, seed, nses = meta[m["trace"] - 1]
            ks = kinds(m)
            if prop == "*" or ks & P[prop][1]:
                res["bad"].append(dict(fam=fam, seed=seed, nses=nses, cats=sorted(ks), trace=t, step=m["step"], mismatch=m, what=describe(t, m), module="client"))
            else:
                res["other"] += 1
        bad = {m["trace"] for m in mm}
        for i, t in enumerate(trs):
            if i + 1 not in bad:
                res["traces"] += 1
            res["events"] += len(t["ev"])
            res["shapes"].add(shape(t))
            res["fams"][meta[i][0]] += 1
            for e in t["ev"]:
                res["kinds"][e["t"] + ":" + (e["p"]["k"] if "p" in e else e.get("f") or e.get("st") or "")] += 1
        good = [t for i, t in enumerate(trs) if i + 1 not in bad and len(t["ev"]) > 8]
        if good:
            t = min(good, key=lambda t: len(t["ev"]))
            res["sample"] = {"tag": t["tag"], "api": t["cfg"]["api"], "steps": ["%s => %s" % (fe(e)[:200], fo(e["obs"])[:200]) for e in t["ev"]][:60]}
    return res


def confirm(prop, bad, bld):
    r = shard((prop, [(bad["fam"], bad["seed"], bad["nses"])], bld, None))
    for b in r["bad"]:
        if b["fam"] == bad["fam"] and set(b["cats"]) & set(bad["cats"]):
            return b
    return None


def plan(prop, tier, seed, nproc, rounds, per):
    r = random.Random("%s/%s/%s" % (prop, tier, seed))
    names = [f for f, w in P[prop][0].items() for _ in range(w)]
    jobs = []
    for rnd in range(rounds):
        batch, k = [], 0
        while len(batch) < nproc * per:
            order = names[:]
            r.shuffle(order)
            for f in order:
                batch.append((f, "%s.%d.%d" % (seed, rnd, k), 4 if f == "big" else 25))
                k += 1
        batch = batch[:max(nproc * per, len(names))]
        jobs += [batch[i::nproc] for i in range(nproc)]
    return jobs


def replay(prop, b):
    again = confirm(prop, b, mmbuild.build())
    print("reproduced: " + again["what"] if again else "not reproduced")
    return 1 if again else 0


if __name__ == "__main__":
    bld = mmbuild.build()
    import multiprocessing
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    fams = sys.argv[3].split(",") if len(sys.argv) > 3 else list(F)
    jobs = [("*", [(f, "%s.%d" % (sys.argv[1], k), 4 if f == "big" else 25)], bld, None) for k in range(n) for f in fams]
    with multiprocessing.Pool(8) as pool:
        tot = ev = 0
        seen = collections.Counter()
        for r in pool.imap_unordered(shard, jobs):
            tot += r["traces"]
            ev += r["events"]
            for e in r["err"]:
                print("ERR", e)
            for b in r["bad"]:
                key = tuple(b["cats"]) + ((b["mismatch"]["event"].get("f") or b["mismatch"]["event"]["t"],) if "mismatch" in b else ())
                seen[key] += 1
                if seen[key] <= 2:
                    print(b["fam"], b["seed"], b["cats"], b["what"])
        print(tot, "ok", ev, "events", dict(seen))
