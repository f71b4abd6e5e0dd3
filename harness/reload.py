"""Sessions of one manager while its configuration is loaded again: every
session has to be the one of the configuration it began with."""
import os, random, struct, time
import driver, world

NAMES = ["k%d" % (i + 1) for i in range(5)]
MAIN = """manager.n_workers = %d
controller.connection_spec = "unix:@CTL@"
controller.unix_socket_mode = 0666
manager.fallback_status = "%s"
manager.chunk_size = %d
begin
  load "milters.conf"
ensure
%s
  File.write("@DIR@/run/loaded.#{$$}", "%d")
end
"""
BROKEN = ["raise 'broken'", "no_such_thing(1)", "manager.no_such_setting = 1", "nil.foo", "define_milter('x') {|m| m.no_such_setting = 1}", "1/0", "throw :x"]


class Setup(driver.Setup):
    """the configuration files of one moment"""

    def __init__(self, hub, specs, conds, broken, rto, eto):
        driver.Setup.__init__(self, specs, gfb=hub.gfb, chunk=hub.chunk, tok=hub.tok, conds=conds, rto=rto, eto=eto)
        self.all, self.broken = specs, broken
        if broken:
            # the statements before the broken one count
            self.specs = [] if broken[0] == "syntax" else specs[:broken[1]]
        self.names = [m["sock"] for m in self.specs]

    def text(self):
        if not self.broken:
            return driver.milter_conf(self.all, conds=self.conds)
        how, k = self.broken
        if how == "syntax":
            return driver.milter_conf(self.all, conds=self.conds) + "\nend end (\n"
        t = driver.milter_conf(self.all[:k], conds=self.conds) + how + "\n" + driver.milter_conf(self.all[k:])
        return t


class Hub(driver.Hub):
    """sessions begin one after the other; between any two steps the configuration may change"""

    def __init__(self, rng, g, world_, p):
        driver.Hub.__init__(self, rng)
        self.g, self.w, self.p = g, world_, p
        self.gen = 0
        self.started = set()
        self.inflight = False
        self.count = 0

    # -- configurations
    def new_setup(self):
        r, g = self.r, self.g
        base = g.setup()
        specs, socks = [], r.sample(NAMES, len(NAMES))
        names = r.sample(NAMES, len(NAMES))
        for m in base.specs:
            m["name"] = names.pop()
            # most of the time a milter keeps its socket
            m["sock"] = m["name"] if m["name"] in socks and r.random() < .7 else r.choice(socks)
            socks.remove(m["sock"])
            specs.append(m)
        # what a condition sees of a milter that failed is not specified
        rto, eto = (r.choice((900, 1000)), 1000) if base.conds else (r.choice((3, 10, 10, 60)), r.choice((7, 300, 300)))
        for m in specs:
            m["rto"], m["eto"] = rto, eto
        broken = None
        if r.random() < self.p.get("p_broken", .2):
            broken = r.choice((("syntax", 0),) + tuple((b, r.randint(0, len(specs))) for b in BROKEN))
        eff = len(specs) if not broken else 0 if broken[0] == "syntax" else broken[1]
        for c in [c for l in base.conds.values() for c in l]:
            if c["op"] in ("quitted", "verdict"):
                c["ix"] = r.randint(1, max(1, eff))
                c["who"] = specs[c["ix"] - 1]["name"] if eff else "k1"
        return Setup(self, specs, base.conds, broken, rto, eto)

    def write(self, st):
        self.gen += 1
        w = self.w
        with open(os.path.join(w.confdir, "milters.conf"), "w") as f:
            f.write(st.text().replace("@DIR@", w.dir))
        w.write_config(MAIN % (w.workers, driver.STATUS.get(self.gfb, self.gfb), self.chunk * self.tok if self.chunk else 65535,
                               "  GC.start" if self.r.random() < .3 else "", self.gen))
        self.setup = st

    def loaded(self):
        """in every process"""
        try:
            return all(open(os.path.join(self.w.dir, "run", "loaded.%d" % p)).read() == str(self.gen) for p in self.w.pids)
        except OSError:
            return False

    def request(self, how=None):
        how = how or self.r.choice(("hup", "hup", "hup2", "ctl"))
        if how == "ctl":
            import config
            config.control(self.w.ctl_path, b"reload")
        else:
            for _ in range(1 + (how == "hup2")):
                os.kill(self.w.proc.pid, 1)

    def await_loaded(self):
        t0 = time.time()
        while not self.loaded():
            if not self.w.alive():
                raise world.DaemonDied(self.w.proc.returncode, self.w.logtail())
            if time.time() - t0 > 30:
                raise world.HarnessError("the configuration is not loaded again\n" + self.w.logtail())
            time.sleep(.0005)
        self.w.wait_idle()

    def reload(self):
        """nothing else goes on"""
        self.count += 1
        self.write(self.new_setup())
        self.request()
        self.await_loaded()

    # -- steps
    def before(self, s):
        """the step of a running session and the reload come at once"""
        if s.ev and self.r.random() < self.p["p_reload"] / 2:      # the first step is when it begins
            self.count += 1
            self.write(self.new_setup())
            for _ in range(self.r.choice((1, 1, 2, 9))):
                self.request("hup")
            self.inflight = True

    def after(self, s):
        if self.inflight:
            self.inflight = False
            self.await_loaded()

    def switch(self, s):
        if self.r.random() < self.p["p_reload"]:
            self.reload()
        self.pass_on(s.sid)

    def choose(self):
        on = [x for x in self.waiting if x in self.started]
        off = [x for x in self.waiting if x not in self.started]
        x = self.r.choice(off if off and (not on or len(on) < 4 and self.r.random() < .04) else on)
        self.started.add(x)
        return x


def gather(r, g, prof, rel, multi, nses, bld, tag, until=None):
    """one daemon, nses rounds of `multi` sessions"""
    hub = Hub(r, g, None, rel)
    hub.gfb = r.choice(("accept", "accept", "tempfail", "reject", "discard"))
    hub.chunk = r.choice(prof["chunk"]) if prof.get("chunk") else None
    hub.tok = 4
    driver.wire.set_token(4)
    w = world.World(bld, NAMES, start=False, env={"MILTER_MANAGER_CONFIG_DIR": "/nonexistent"}, workers=rel.get("workers", 0))
    out, notes = [], []
    try:
        hub.w = w
        hub.write(hub.new_setup())
        w.start()
        base = w.nfds()
        for k in range(nses):
            if until and time.time() > until:
                break
            hub.r = random.Random(r.random())
            hub.started, hub.turn = set(), None
            ss, died = hub.run(w, lambda: hub.setup, [(k * 100 + m + 1, driver.Gen(random.Random(r.random()), **prof), "%s/%d.%d" % (tag, k, m))
                                                      for m in range(multi)])
            out += [s.trace() for s in ss]
            if died:
                notes.append(("died", "after %d reloads: status %s\n%s" % (hub.count, w.proc.poll(), w.logtail(1500))))
                break
        else:
            w.settle()
            for _ in range(20):
                n = w.nfds()
                if n <= base:
                    break
                time.sleep(.05)
            if n > base:
                notes.append(("fds", "%d descriptors before the first session, %d after the last one and %d reloads" % (base, n, hub.count)))
    finally:
        w.stop()
    return out, notes
