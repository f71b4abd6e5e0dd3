"""The manager as a service: when it listens, whom it serves, when it leaves,
what it leaves behind.  Sessions here are a fixed script with a milter that
answers at once; every step of the whole service is recorded."""
import collections, ctypes, hashlib, itertools, json, os, random, signal, socket, stat, struct, subprocess, sys, time, traceback
import driver, families, mmbuild, sessions, wire, world
from sessions import tlc

SCRIPT = ["neg", "connect", "helo", "mail", "rcpt", "data", "header", "eoh", "body", "eom"]
PKT = {"connect": ("connect", "localhost", "4", "2525", "127.0.0.1"), "helo": ("helo", "h"), "mail": ("mail", "<a@b>"), "rcpt": ("rcpt", "<c@d>"),
       "data": ("data",), "header": ("header", "Subject", "x"), "eoh": ("eoh",), "body": ("body", "text"), "eom": ("eom",)}
MAIN = """manager.connection_spec = "%(spec)s"
manager.unix_socket_mode = %(mode)s
manager.remove_unix_socket_on_create = %(rmc)s
manager.remove_unix_socket_on_close = %(rmx)s
manager.pid_file = %(pid)s
manager.max_connections = %(max)d
manager.suspend_time_on_unacceptable = %(susp)d
manager.n_workers = %(workers)d
manager.event_loop_backend = "%(loop)s"
define_milter("k1") do |milter|
  milter.connection_spec = "unix:@DIR@/c_k1.sock"
end
"""


def subreaper():
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def listening(path):
    for l in open("/proc/net/unix"):
        f = l.split()
        if len(f) > 7 and f[7] == path and f[3] == "00010000":
            return True
    return False


class Service:
    def __init__(self, r, bld, p):
        self.r, self.p = r, p
        self.cfg = c = {"workers": r.choice(p.get("workers", (0,))), "max": r.choice(p.get("max", (0,))), "susp": r.choice((1, 2, 5, 9)),
                        "rmc": r.random() < .6, "rmx": r.random() < .6, "mode": r.choice(("600", "660", "666", "640", "777")),
                        "pid": r.random() < .7, "prepid": r.random() < .2, "pre": r.choice(p.get("pre", ("none",))), "unix": r.random() < p.get("p_unix", 1),
                        "loop": r.choice(p.get("loop", ("glib",))), "accept": r.random() < p.get("p_accept", 0)}
        if c["pre"] == "file" and c["rmc"]:
            c["rmc"] = False
        if not c["unix"]:
            c["pre"] = "none"
        if c["accept"]:
            c["loop"] = "glib"    # the loop of libev does not hear of what another thread adds
        env = {"MILTER_MANAGER_CONFIG_DIR": "/nonexistent"}
        if c["accept"]:
            env["MILTER_USE_ACCEPT_LOOP"] = "yes"
        subreaper()
        w = self.w = world.World(bld, ["k1"], start=False, env=env, workers=c["workers"])
        if c["loop"] == "libev":
            w.tick = 1000
        n = os.getpid()
        self.ip = "127.%d.%d.%d" % (1 + n // 62500 % 250, 1 + n // 250 % 250, 1 + n % 250)
        self.pidfile = os.path.join(w.dir, "run", "pid")
        w.write_config("")
        self.now = {k: c[k] for k in ("max", "susp", "rmx")}
        self.write_conf()
        if c["prepid"]:
            open(self.pidfile, "w").write("1\n")
            os.chown(self.pidfile, world.NOBODY.pw_uid, world.NOBODY.pw_gid)
        self.ino = None
        if c["pre"] == "sock":
            s = socket.socket(socket.AF_UNIX)
            s.bind(w.mta_path)
            s.close()
        elif c["pre"] == "file":
            open(w.mta_path, "w").write("precious")
        if c["pre"] != "none":
            os.chown(w.mta_path, world.NOBODY.pw_uid, world.NOBODY.pw_gid)
            self.ino = os.stat(w.mta_path).st_ino, os.stat(w.mta_path).st_mtime_ns
        self.log = []
        self.ev = []
        self.sid = 0
        self.kid = {}      # key of a milter's connection -> session
        nkid = itertools.count(1)   # every connection to the milter has a name of its own
        w.newkey = lambda m: ("kid%d" % next(nkid), m)
        self.pos = {}      # sessions of which the MTA's side is open -> answers had
        self.term = False

    def write_conf(self):
        w, c = self.w, self.cfg
        b = {True: "true", False: "false"}
        text = MAIN % dict(c, spec="unix:" + w.mta_path if c["unix"] else "inet:10025@[%s]" % self.ip, mode="0" + c["mode"], rmc=b[c["rmc"]],
                           pid='"%s"' % self.pidfile if c["pid"] else "nil", max=self.now["max"], susp=self.now["susp"], rmx=b[self.now["rmx"]])
        with open(os.path.join(w.confdir, "milter-manager.conf"), "w") as f:
            f.write(text.replace("@DIR@", w.dir))

    def reload(self):
        """other settings, loaded again"""
        r = self.r
        if r.random() < .7:
            self.now["rmx"] = r.random() < .5
            if self.cfg["max"]:
                self.now["max"] = r.choice((0, 1, 1, 2, 3))
                self.now["susp"] = r.choice((1, 2, 5, 9))
            self.write_conf()
        self.signal(signal.SIGHUP)

    # -- observing
    def files(self):
        w = self.w
        try:
            st = os.lstat(w.mta_path)
            k = "sock" if stat.S_ISSOCK(st.st_mode) else "file"
            if k == "sock" and (st.st_ino, st.st_mtime_ns) == self.ino:
                k = "old"
            if k == "file" and open(w.mta_path).read() != "precious":
                k = "damaged"
            mode = "%o" % (st.st_mode & 0o777)
        except FileNotFoundError:
            k, mode = "none", ""
        try:
            t = open(self.pidfile).read()
            pid = "own" if t == "%d\n" % self.w.proc.pid else "other" if t == "1\n" else "damaged"
            if pid != "other" and os.stat(self.pidfile).st_mode & 0o777 != 0o644:
                pid += "%o" % (os.stat(self.pidfile).st_mode & 0o777)
        except FileNotFoundError:
            pid = "none"
        return k, mode if k == "sock" else "", pid

    def status(self):
        """of the processes that are gone"""
        w = self.w
        s = []
        if w.proc.poll() is not None:
            s.append(w.proc.returncode)
        for p in list(self.workers):
            try:
                q, st = os.waitpid(p, os.WNOHANG)
            except ChildProcessError:
                continue      # still somebody else's
            if q:
                self.workers.remove(p)
                s.append(os.waitstatus_to_exitcode(st))
        self.seen |= set(s)
        return sorted(self.seen)

    def settle(self):
        """until nothing moves, the milter answering at once"""
        w = self.w
        m, k = collections.defaultdict(list), collections.defaultdict(list)
        while True:
            todo = []
            for key, kind, a, s in w.settle():
                if key[1] == "mta":
                    m[key[0]].append(kind)
                    continue
                if kind == "open":
                    continue
                if kind == "neg":
                    acts = [x for n, x in s if n == "a"]
                    self.kid[key] = wire.flags(acts, wire.ACTIONS)
                if kind == "eof" and key not in self.kid:
                    continue     # a connection without a word
                sid = self.kid.get(key, 0)
                if kind == "macro":
                    continue
                k[sid].append(kind)
                if kind in SCRIPT:
                    todo.append((key, kind))
            if not todo:
                break
            for key, kind in todo:
                p = w.peers[key]
                if kind == "neg":
                    w._sendall(p, wire.neg(6, wire.names(self.kid[key], wire.ACTIONS), []))
                else:
                    w._sendall(p, wire.rep("continue"))
        for key in [x for x, p in w.peers.items() if p.eof]:
            w.peers.pop(key).sock.close()
        return m, k

    def step(self, op, act=None, s=0, d=0, more=None):
        rc = act() if act else None
        m, k = self.settle() if self.started else ({}, {})
        f = self.files()
        self.ev.append({"op": op, "s": s, "d": d, "new": dict(self.now), "o": {
            "m": [[x, v] for x, v in sorted(m.items())], "k": [[x, v] for x, v in sorted(k.items())],
            "rc": rc or "", "up": bool(self.w.pids) and self.started, "st": self.status(), "sock": f[0], "mode": f[1], "pid": f[2]}})
        for x, v in m.items():
            if "eof" in v:
                self.pos.pop(x, None)
            elif x in self.pos:
                self.pos[x] += len(v)
        return self.ev[-1]["o"]

    # -- stimuli
    def start(self):
        w, c = self.w, self.cfg
        self.started, self.workers, self.seen = True, [], set()
        w.leaving = True
        w.start(wait=False)
        t0 = time.time()
        while True:
            if w.proc.poll() is not None:
                w.pids = []
                break
            if c["unix"]:
                up = listening(w.mta_path)
            else:
                up = ":2729 00000000:0000 0A" in open("/proc/net/tcp").read() and any(
                    l.split()[1] == struct.pack("<I", struct.unpack(">I", socket.inet_aton(self.ip))[0]).hex().upper() + ":2729" and l.split()[3] == "0A"
                    for l in open("/proc/net/tcp") if l.split()[0] != "sl")
            kids = [int(x) for x in open("/proc/%d/task/%d/children" % (w.proc.pid, w.proc.pid)).read().split()] if c["workers"] else []
            if up and len(kids) == c["workers"]:
                w.pids += kids
                self.workers = kids
                break
            if time.time() - t0 > 60:
                raise world.HarnessError("the manager does not start\n" + w.logtail())
            time.sleep(.002)

    def connect(self, s):
        w = self.w
        c = socket.socket(socket.AF_UNIX if self.cfg["unix"] else socket.AF_INET)
        c.settimeout(5)
        try:
            c.connect(w.mta_path if self.cfg["unix"] else (self.ip, 10025))
        except OSError:
            c.close()
            return "refused"
        c.setblocking(False)
        w.add_peer((s, "mta"), c, wire.dec_rep)
        self.pos[s] = 0
        w._sendall(w.peers[(s, "mta")], wire.neg(6, wire.names(s, wire.ACTIONS), [n for n, _ in wire.STEPS if not n.startswith("no") or True]))
        return "ok"

    def command(self, s):
        k = self.pos[s]
        kind = SCRIPT[k] if k < 10 else SCRIPT[3 + (k - 10) % 7]
        self.w._sendall(self.w.peers[(s, "mta")], wire.cmd(*PKT[kind]))

    def send(self, s, kind):
        self.w._sendall(self.w.peers[(s, "mta")], wire.cmd(kind))

    def close(self, s):
        self.w.close((s, "mta"))
        self.pos.pop(s)

    def signal(self, sig):
        if self.w.proc.poll() is None:
            os.kill(self.w.proc.pid, sig)

    def run(self):
        r, c, p = self.r, self.cfg, self.p
        self.step("start", self.start)
        if not self.w.pids:
            return
        n = r.randint(*p.get("steps", (10, 40)))
        for i in range(n):
            x = r.random()
            served = [s for s in self.pos if self.pos[s]]
            pend = [s for s in self.pos if not self.pos[s]]
            if not self.w.pids:
                break
            if not self.term and x < p["p_term"]:
                self.term = True
                self.step("term", lambda: self.signal(r.choice((signal.SIGTERM, signal.SIGINT))))
            elif x < .03 + p["p_term"] and not (self.term and c["workers"]):
                self.step("hup", self.reload)
            elif x < .3 and self.sid < 60 and (len(self.pos) < p.get("conns", 5)):
                self.sid += 1
                s = self.sid
                self.step("conn", lambda: self.connect(s), s)
            elif x < .42 and (c["max"] or x < .33):
                d = r.choice((1, 1, 2, 3, 5, 10))
                self.step("adv", lambda: self.w.advance(d), 0, d)
            elif pend and x < .46:
                s = r.choice(pend)
                self.step("close", lambda: self.close(s), s)
            elif served and x < .55:
                s = r.choice(served)
                k = r.choice(("quit", "quit", "close"))
                self.step(k, lambda: self.close(s) if k == "close" else self.send(s, "quit"), s)
            elif served:
                s = r.choice(served)
                self.step("cmd", lambda: self.command(s), s)
        # everybody leaves
        while self.w.pids:
            x = r.random()
            served = [s for s in self.pos if self.pos[s]]
            if not self.term and (x < .3 or not self.pos):
                self.term = True
                self.step("term", lambda: self.signal(r.choice((signal.SIGTERM, signal.SIGINT))))
            elif served and x < .6:
                s = r.choice(served)
                self.step("quit", lambda: self.send(s, "quit"), s)
            elif served:
                s = r.choice(served)
                self.step("cmd", lambda: self.command(s), s)
            elif self.pos and c["max"]:
                self.step("adv", lambda: self.w.advance(10), 0, 10)
            elif self.term:
                break
            if len(self.ev) > 400:
                break
        self.step("after")

    def trace(self, tag):
        return {"cfg": self.cfg, "ev": self.ev, "tag": tag}


def one(seed, fam, bld):
    sv = Service(random.Random("%s/%s" % (fam, seed)), bld, FAM[fam])
    sv.started = False
    stuck = ""
    try:
        sv.run()
    except (world.HarnessError, world.DaemonDied) as e:
        stuck = str(e)[-1500:]
    finally:
        log = sv.w.logtail(1500)
        for p in getattr(sv, "workers", []):
            try:
                os.kill(p, 9)
                os.waitpid(p, 0)
            except OSError:
                pass
        sv.w.stop()
    t = sv.trace("%s/%s" % (fam, seed))
    t["log"] = log
    t["stuck"] = stuck
    return t


FAM = {
    "files": dict(p_term=.15, steps=(0, 12), pre=("none", "sock", "sock", "file"), p_unix=.9, workers=(0, 0, 0, 2), loop=("glib", "glib", "libev"), p_accept=.15),
    "term": dict(p_term=.06, steps=(10, 60), p_unix=.8, loop=("glib", "glib", "libev")),
    "termworkers": dict(p_term=.06, steps=(10, 60), workers=(1, 2, 3)),
    "termaccept": dict(p_term=.06, steps=(10, 60), p_accept=1),
    "limit": dict(p_term=.01, steps=(20, 90), max=(1, 1, 2, 3), conns=7, p_unix=.9, loop=("glib", "glib", "libev")),
    "limitterm": dict(p_term=.05, steps=(20, 90), max=(1, 2), conns=7),
}
RULE = ("a trace is one life of a manager: started on some configuration and some remains of an earlier one, served, reloaded, told to leave, gone; "
        "distinct = different settings or different sequences of events")
# what of a step the property is about
P = {"D01": ({"term": 3, "termworkers": 2, "termaccept": 1, "limitterm": 1}, None, None),
     "D02": ({"files": 1}, None, None),
     "D03": ({"limit": 3, "limitterm": 1}, None, None)}


def plan(prop, tier, seed, nproc, rounds, per):
    r = random.Random("%s/%s/%s" % (prop, tier, seed))
    names = [f for f, w in P[prop][0].items() for _ in range(w)]
    jobs = []
    for rnd in range(rounds * 3):
        batch = [(names[(rnd * nproc * 4 + k) % len(names)], "%s.%d.%d" % (seed, rnd, k)) for k in range(nproc * 4)]
        r.shuffle(batch)
        jobs += [batch[i::nproc] for i in range(nproc)]
    return jobs


def story(t, n):
    return " ".join(e["op"] + (str(e["s"]) if e["s"] else "") + ("+%d" % e["d"] if e["d"] else "") for e in t["ev"][max(0, n - 12):n])


def what(t, m):
    e = t["ev"][m["step"] - 1]
    return "%s step %d: %s; differs in %s: got %s, expected %s; before: %s; settings %s" % (
        t["tag"], m["step"], e["op"] + str(e["s"] or ""), ",".join(m["differs"]), json.dumps(e["o"])[:500], json.dumps(m["exp"])[:500], story(t, m["step"]), t["cfg"])


def shard(job):
    prop, jobs, bld, until = job
    res = dict(traces=0, events=0, states=0, setups=0, shapes=set(), bad=[], other=0, sample=None, err=[], fams=collections.Counter(), kinds=collections.Counter())
    trs, meta = [], []
    for fam, seed in jobs:
        if until and time.time() > until:
            break
        try:
            t = one(seed, fam, bld)
        except Exception:
            res["err"].append(traceback.format_exc()[-1500:])
            continue
        res["setups"] += 1
        if t["stuck"]:
            res["bad"].append(dict(module="service", fam=fam, seed=seed, nses=1, cats=["stuck"], trace=t, step=len(t["ev"]) + 1,
                                   what="%s: the manager hung or died (%s); before: %s; settings %s" % (t["tag"], t["stuck"][-700:], story(t, len(t["ev"])), t["cfg"])))
        trs.append(t)
        meta.append((fam, seed))
    if trs:
        mm, states = tlc(trs, "ServiceTrace")
        res["states"] = states
        bad = set()
        for m in mm:
            t = trs[m["trace"] - 1]
            fam, seed = meta[m["trace"] - 1]
            bad.add(m["trace"])
            res["bad"].append(dict(module="service", fam=fam, seed=seed, nses=1, cats=m["differs"], trace=t, step=m["step"], what=what(t, m)))
        for i, t in enumerate(trs):
            res["traces"] += i + 1 not in bad and not t["stuck"]
            res["events"] += len(t["ev"])
            for e in t["ev"]:
                res["kinds"][e["op"]] += 1
            res["fams"][meta[i][0]] += 1
            res["shapes"].add(hashlib.md5(json.dumps([t["cfg"], [(e["op"], e["s"], e["d"], e["new"]) for e in t["ev"]]], sort_keys=True).encode()).hexdigest())
        ok = [t for i, t in enumerate(trs) if i + 1 not in bad and len(t["ev"]) > 12]
        if ok:
            t = min(ok, key=lambda t: len(t["ev"]))
            res["sample"] = {"tag": t["tag"], "settings": t["cfg"], "events": story(t, 60)}
    return res


def confirm(prop, b, bld):
    r = shard((prop, [(b["fam"], b["seed"])], bld, None))
    for x in r["bad"]:
        if set(x["cats"]) & set(b["cats"]):
            return x
    return None


def replay(prop, b):
    again = confirm(prop, b, mmbuild.build())
    print("reproduced: " + again["what"] if again else "not reproduced")
    return 1 if again else 0
