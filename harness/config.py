"""Random configurations for the real milter-manager, judged by spec/Config.tla (K03)."""
import collections, glob, json, os, random, re, shutil, socket, struct, subprocess, sys, tempfile, time, traceback
from xml.sax.saxutils import escape
import mmbuild, world
from sessions import tlc

Q = lambda s: json.dumps(s)      # literal of a plain string, also the way Ruby prints it
STRS = ["ab", "nobody", "/var/run/x.pid", "a b", "x'y", 'say \\"hi\\"', "back\\\\slash", "", "#5", "50%"]
STRS = ['"%s"' % s for s in STRS]
BADSPECS = ['"bad"', '"bad"', '"unix:"', '"foo:1"', '"inet:x"', '"inet:70000"', '"unix:/' + 'x' * 120 + '"', '"unix:/' + 'y' * 3000 + '"']
SPECS = ['"inet:1000"', '"inet:10026@localhost"', '"inet6:2525@[::1]"', '"unix:/tmp/a b.sock"', '"unix:/var/run/x.sock"', '"inet:9999@[127.0.0.1]"']
STATUS = ['"accept"', '"ACCEPT"', ':accept', '"reject"', '"Reject"', ':reject', '"temporary-failure"', '"temporary_failure"', ':temporary_failure',
          '"discard"', ':discard']
STR = ["security.effective_user", "security.effective_group", "manager.unix_socket_group", "manager.pid_file", "manager.custom_configuration_directory",
       "controller.unix_socket_group", "database.type", "database.name", "database.host", "database.path", "database.user", "database.password",
       "package.platform", "package.options", "log.syslog_facility"]
BOOL = ["manager.remove_unix_socket_on_create", "manager.remove_unix_socket_on_close", "manager.daemon", "controller.remove_unix_socket_on_create",
        "controller.remove_unix_socket_on_close", "log.use_syslog"]
INT = ["manager.maintenance_interval", "manager.suspend_time_on_unacceptable", "manager.max_connections", "manager.max_file_descriptors",
       "manager.n_workers", "manager.packet_buffer_size", "manager.connection_check_interval", "manager.chunk_size", "manager.max_pending_finished_sessions"]
MKEYS = ["connection_spec", "description", "enabled", "fallback_status", "evaluation_mode", "command", "command_options", "user_name",
         "connection_timeout", "writing_timeout", "reading_timeout", "end_of_message_timeout"]
NAMES = ["m1", "m2", "a milter", "M1", "x-y.z"]
CNAMES = ["A", "B", "S25R", "Remote Network"]
XSET = ["security.privilege_mode", "security.effective_user", "security.effective_group", "manager.connection_spec", "manager.fallback_status",
        "manager.pid_file", "manager.unix_socket_group", "controller.connection_spec", "controller.unix_socket_group"]


class Gen:
    def __init__(self, r, daemon):
        self.r = r
        self.daemon = daemon
        self.p_bad = r.choice([0, 0, 0, .02, .06])

    def bad(self):
        return self.r.random() < self.p_bad

    def set(self):
        r = self.r
        g = r.random()
        if g < .35:
            k = r.choice(STR)
            v = r.choice(STRS + ["nil"])
            if k in ("security.effective_user", "security.effective_group") and v not in ("nil", '"nobody"'):
                v = '"nobody"' if k.endswith("user") else '"nogroup"'
            if k == "database.type" and v != "nil":
                v = r.choice(['"sqlite3"', '"mysql2"'])
        elif g < .5:
            k, v = r.choice(BOOL), r.choice(["true", "false", "nil"])
        elif g < .75:
            k = r.choice(INT)
            v = '"x"' if self.bad() else r.choice(["nil", "0", "1", "7", "50", "1000"] + (["70000", "65535"] if k == "manager.chunk_size" else []))
            if k == "manager.max_file_descriptors" and self.daemon:
                v = r.choice(["nil", "0"])
        elif g < .8:
            k = r.choice(["manager.unix_socket_mode", "controller.unix_socket_mode"])
            v = r.choice(["nil", '"0640"']) if self.bad() else r.choice(["0600", "0660", "0777", "0640", "0700"])
        elif g < .88:
            k = r.choice(["manager.fallback_status", "manager.fallback_status_at_disconnect"])
            v = '"bad"' if self.bad() else r.choice(STATUS if k == "manager.fallback_status" else [s for s in STATUS if s[1:-1].islower()])
        elif g < .91:
            k, v = "manager.event_loop_backend", '"epoll"' if self.bad() else r.choice(['"glib"', '"libev"'])
        elif g < .94:
            k, v = "log.level", '"bogus"' if self.bad() else r.choice(['nil', '"default"', '""', '"all"', '"error|info"', '"critical|debug"', '"statistics"'])
        elif g < .95:
            k, v = "log.path", '"/nonexistent/x.log"' if self.bad() else r.choice(['nil', '"@RUN@/a.log"', '"@RUN@/b.log"', '"-"'])
        elif g < .97:
            k, v = r.choice(["manager.connection_spec", "controller.connection_spec"]), r.choice(BADSPECS) if self.bad() else r.choice(SPECS + ["nil"])
        else:
            k, v = "security.privilege_mode", '"no"' if self.bad() else r.choice(["true", "false", '"true"', '"false"'])
        return {"op": "set", "k": k, "v": v}

    def mset(self, conds):
        r = self.r
        g = r.random()
        if g < .25:
            k = "add" if r.random() < .5 else "conds"
            pool = (["Z"] if self.bad() else conds)
            if not pool:
                return {"k": "conds", "l": []}
            if k == "add":
                return {"k": "add", "v": r.choice(pool)}
            return {"k": "conds", "l": [r.choice(pool) for _ in range(r.randint(0, 3))]}
        if self.bad() and r.random() < .3:
            return {"k": "raise"}
        k = r.choice(MKEYS)
        if k == "connection_spec":
            v = r.choice(BADSPECS) if self.bad() else r.choice(SPECS)
        elif k in ("description", "command", "user_name"):
            v = r.choice(STRS + ["nil"])
        elif k in ("enabled", "evaluation_mode"):
            v = r.choice(["true", "false", "nil"])
        elif k == "fallback_status":
            v = '"bad"' if self.bad() else r.choice(STATUS)
        elif k == "command_options":
            v = r.choice(['nil', '""', '"a b"', '["a b", "c"]', '["--x", "-y"]', '[]', '"start"'])
        else:
            v = r.choice(["nil", '"x"']) if self.bad() else r.choice(["5", "1.25", "0", "60", "7.5"])
        return {"k": k, "v": v}

    def body(self, conds, spec):
        b = [self.mset(conds) for _ in range(self.r.randint(0, 5))]
        if spec:
            b.insert(0, {"k": "connection_spec", "v": self.r.choice(SPECS)})
        return b

    def stmts(self, n, files, depth):
        r, out = self.r, []
        for _ in range(n):
            g = r.random()
            if g < .35:
                out.append(self.set())
            elif g < .65:
                out.append({"op": "milter", "n": r.choice(NAMES), "b": self.body(self.conds, r.random() < .75)})
            elif g < .75:
                nm = r.choice(CNAMES)
                self.conds = sorted(set(self.conds) | {nm})
                out.append({"op": "cond", "n": nm, "d": r.choice(["", "", "nil"] + STRS)})
            elif g < .80:
                out.append({"op": "remove", "n": r.choice(NAMES + ["none"])})
            elif g < .82:
                out.append({"op": "removeall"})
            elif g < .87:
                out.append({"op": "each", "b": self.body(self.conds, False)})
            elif g < .95 and depth < 2:
                out.append(self.load(files, depth))
            elif self.bad():
                out.append({"op": r.choice(["raise", "raise", "syntax"])})
        return out

    def load(self, files, depth):
        r = self.r
        op = "load" if r.random() < .6 else "loadif"
        g = r.random()
        if g < .6:
            f = "f%d.conf" % len(files)
            files[f] = []
            files[f] = self.stmts(r.randint(0, 4), files, depth + 1)
            return {"op": op, "fs": [f], "pat": f}
        if g < .9:
            d = "d%d" % len(files)
            fs = ["%s/%s.conf" % (d, x) for x in sorted(r.sample("abcdxyz", r.randint(1, 3)))]
            for f in fs:
                files[f] = []
                files[f] = self.stmts(r.randint(0, 3), files, depth + 1)
            return {"op": op, "fs": fs, "pat": d + "/*.conf"}
        if op == "load" and not self.bad():
            return {"op": "set", "k": "manager.n_workers", "v": "3"}
        return {"op": op, "fs": [], "pat": "missing/*.conf"}

    def xml(self):
        r, out = self.r, []
        for _ in range(r.randint(1, 4)):
            g = r.random()
            if g < .4:
                k = r.choice(XSET)
                t = {"security.privilege_mode": ["true", "false"], "manager.fallback_status": ["reject", "discard", "temporary-failure"] + ["bad"] * self.bad(),
                     "security.effective_user": ["nobody"], "security.effective_group": ["nogroup"],
                     "manager.connection_spec": [x[1:-1] for x in SPECS], "controller.connection_spec": [x[1:-1] for x in SPECS]}.get(k, ["ab", "x<y>&z", "a b"])
                out.append({"op": "set", "k": k, "t": r.choice(t)})
            elif g < .97 or not self.bad():
                f = []
                for k, ts in (("connection_spec", [x[1:-1] for x in SPECS]), ("description", ["some <text> & more", "d"]), ("enabled", ["true", "false"]),
                              ("command", ["/bin/run"]), ("command_options", ["start", "--a b"]), ("fallback_status", ["reject", "discard"] + ["bad"] * self.bad()),
                              ("evaluation_mode", ["true", "false"])):
                    if r.random() < .5 and not (k == "command_options" and "command" not in [x["k"] for x in f]):
                        f.append({"k": k, "t": r.choice(ts)})
                pool = ["Z"] if self.bad() else self.conds
                out.append({"op": "milter", "n": r.choice(NAMES), "f": f, "c": [r.choice(pool) for _ in range(r.randint(0, 2))] if pool else []})
            else:
                out.append({"op": "odd"})
        return out

    def program(self):
        self.conds = []
        files = {}
        main = self.stmts(self.r.randint(1, 9), files, 0)
        files["milter-manager.conf"] = main
        return files, (self.xml() if self.r.random() < .3 else [])


# ------------------------------------------------------------------ to text
def mtext(b):
    out = []
    for x in b:
        if x["k"] == "add":
            out.append("  m.add_applicable_condition(%s)" % Q(x["v"]))
        elif x["k"] == "conds":
            out.append("  m.applicable_conditions = %s" % json.dumps(x["l"]))
        elif x["k"] == "raise":
            out.append('  raise "oops"')
        else:
            out.append("  m.%s = %s" % (x["k"], x["v"]))
    return "\n".join(out)


def text(st):
    out = []
    for c in st:
        o = c["op"]
        out.append({"set": lambda: "%s = %s" % (c["k"], c["v"]),
                    "milter": lambda: "define_milter(%s) do |m|\n%s\nend" % (Q(c["n"]), mtext(c["b"])),
                    "remove": lambda: "remove_milter(%s)" % Q(c["n"]),
                    "removeall": lambda: "defined_milters.each do |n|\n  remove_milter(n)\nend",
                    "each": lambda: "defined_milters.each do |n|\n define_milter(n) do |m|\n%s\n end\nend" % mtext(c["b"]),
                    "cond": lambda: "define_applicable_condition(%s) do |c|\n%send" % (Q(c["n"]), "  c.description = %s\n" % c["d"] if c["d"] else ""),
                    "load": lambda: "load(%s)" % Q(c["pat"]),
                    "loadif": lambda: "load_if_exist(%s)" % Q(c["pat"]),
                    "raise": lambda: 'raise "oops"',
                    "syntax": lambda: "this is (not ruby"}[o]())
    return "# -*- ruby -*-\n" + "\n".join(out) + "\n"


def xmltext(x):
    sec = {"security": [], "manager": [], "controller": [], "milters": []}
    out = []
    for e in x:
        if e["op"] == "set":
            s, k = e["k"].split(".")
            out.append("  <%s>\n    <%s>%s</%s>\n  </%s>" % (s, k.replace("_", "-"), escape(e["t"]), k.replace("_", "-"), s))
        elif e["op"] == "milter":
            l = ["      <name>%s</name>" % escape(e["n"])]
            l += ["      <%s>%s</%s>" % (f["k"].replace("_", "-"), escape(f["t"]), f["k"].replace("_", "-")) for f in e["f"]]
            if e["c"]:
                l.append("      <applicable-conditions>")
                l += ["        <applicable-condition>%s</applicable-condition>" % escape(c) for c in e["c"]]
                l.append("      </applicable-conditions>")
            out.append("  <milters>\n    <milter>\n%s\n    </milter>\n  </milters>" % "\n".join(l))
        else:
            out.append("  <odd/>")
    return "<configuration>\n%s\n</configuration>\n" % "\n".join(out)


def write(d, files, xml, run, wrap=None):
    for x in os.listdir(d):
        p = os.path.join(d, x)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    for f, st in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f == "milter-manager.conf" and wrap:
            with open(os.path.join(d, "main.part"), "w") as fp:
                fp.write(text(st).replace("@RUN@", run))
            with open(p, "w") as fp:
                fp.write(wrap)
        else:
            with open(p, "w") as fp:
                fp.write(text(st).replace("@RUN@", run))
    if xml:
        with open(os.path.join(d, "milter-manager.custom.conf"), "w") as fp:
            fp.write(xmltext(xml))


# --------------------------------------------------------------- from text
def parse(dump):
    o = {"v": {}, "ms": [], "cs": []}
    cur = None
    lst = None
    for l in dump.split("\n"):
        s = l.strip()
        if not s or s.startswith("#"):
            continue
        if lst is not None:
            if s == "]":
                lst = None
            else:
                lst.append(json.loads(s.rstrip(",")))
            continue
        m = re.match(r'define_applicable_condition\((".*")\) do \|condition\|$', s)
        if m:
            cur = {"n": json.loads(m.group(1)), "d": None}
            o["cs"].append(cur)
            continue
        m = re.match(r'define_milter\((".*")\) do \|milter\|$', s)
        if m:
            cur = {"n": json.loads(m.group(1)), "f": {}, "c": []}
            o["ms"].append(cur)
            continue
        if s == "end":
            cur = None
            continue
        if s == "milter.applicable_conditions = [":
            lst = cur["c"]
            continue
        m = re.match(r'([a-z_.]+) = (.*)$', s)
        if not m:
            raise ValueError("dump line %r" % l)
        k, v = m.groups()
        if k == "milter.applicable_conditions":
            continue
        if k.startswith("milter."):
            cur["f"][k[7:]] = v
        elif k == "condition.description":
            cur["d"] = v
        else:
            o["v"][k] = v
    return o


def parse_xml(t):
    import xml.etree.ElementTree as E
    root = E.fromstring(t)
    o = {"v": {}, "ms": [], "cs": []}
    for m in root.findall("milters/milter"):
        f = {k: "nil" for k in ("connection_spec", "description", "command", "command_options")}
        for c in m:
            k = c.tag.replace("-", "_")
            if k in ("enabled", "evaluation_mode"):
                f[k] = c.text
            elif k not in ("name", "applicable_conditions"):
                f[k] = '"%s"' % (c.text or "").replace("\\", "\\\\").replace('"', '\\"')
        o["ms"].append({"n": m.findtext("name"), "f": f, "c": [x.text for x in m.findall("applicable-conditions/applicable-condition")]})
    for c in root.findall("applicable-conditions/applicable-condition"):
        d = c.findtext("description")
        o["cs"].append({"n": c.findtext("name"), "d": "nil" if d is None else '"%s"' % d.replace("\\", "\\\\").replace('"', '\\"')})
    return o


# ------------------------------------------------------------------ running
NOBODY = world.NOBODY


class Box:
    """a scratch directory with a configuration directory, as user nobody"""
    def __init__(self, bld):
        self.bld = bld
        self.d = tempfile.mkdtemp(prefix="mmk")
        os.chmod(self.d, 0o755)
        self.conf = os.path.join(self.d, "conf")
        self.run = os.path.join(self.d, "run")
        for p in (self.conf, self.run):
            os.mkdir(p)
            os.chown(p, NOBODY.pw_uid, NOBODY.pw_gid)
        self.env = {"PATH": os.environ["PATH"], "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": self.run, "TMPDIR": self.run,
                    # the directory must be searched once only
                    "MILTER_MANAGER_CONFIG_DIR": "/nonexistent"}

    def show(self):
        p = subprocess.run([os.path.join(self.bld, "bin/milter-manager"), "--config-dir", self.conf, "--show-config"], env=self.env, cwd=self.run,
                           stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=60, user=NOBODY.pw_uid, group=NOBODY.pw_gid, extra_groups=[])
        i = p.stdout.find("# default\npackage.platform") if "# default\npackage.platform" in p.stdout else p.stdout.find("package.platform")
        # the log goes to the standard output as well
        dump = "".join(l for l in p.stdout[max(0, i):].splitlines(True) if not re.match(r"\[\d{4}-\d\d-\d\dT", l))
        return p.returncode, p.stdout, dump, p.stderr

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def run_of(how, files, xml, rc, dump, log=""):
    r = {"how": how, "files": files, "xml": xml, "died": False, "obs": {"v": {}, "ms": [], "cs": []}}
    try:
        r["obs"] = parse(dump) if how != "get" else parse_xml(dump)
        if how != "get" and "package.platform" not in r["obs"]["v"]:
            raise ValueError
    except Exception as x:
        r["died"] = True
        r["log"] = "%s %s\n%s\n%s" % (rc, x, dump[-600:], log[-600:])
    return r


def fresh(r, box):
    """one configuration printed by a manager of its own, and the print read again"""
    files, xml = Gen(r, False).program()
    write(box.conf, files, xml, box.run)
    rc, out, dump, err = box.show()
    runs = [run_of("show", files, xml, rc, dump.replace(box.run, "@RUN@"), err)]
    if not runs[0]["died"]:
        for x in os.listdir(box.conf):
            p = os.path.join(box.conf, x)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        with open(os.path.join(box.conf, "milter-manager.conf"), "w") as fp:
            fp.write(dump)
        rc, out, dump2, err = box.show()
        runs.append(run_of("back", files, xml, rc, dump2.replace(box.run, "@RUN@"), err))
    return runs


WRAP = """begin
  load("main.part")
ensure
  File.write("%s", configuration.dump)
end
"""


def control(path, name, data=b""):
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.settimeout(30)
    s.connect(path)
    body = name + b"\0" + data
    s.sendall(struct.pack(">I", len(body)) + body)
    buf = b""
    try:
        while len(buf) < 4 or len(buf) < 4 + struct.unpack(">I", buf[:4])[0]:
            d = s.recv(65536)
            if not d:
                break
            buf += d
    finally:
        s.close()
    return buf[4:]


def served(r, bld, n):
    """a history of configurations of one running manager"""
    w = world.World(bld, [], 'controller.connection_spec = "unix:@CTL@"\ncontroller.unix_socket_mode = 0666\n',
                    env={"MILTER_MANAGER_CONFIG_DIR": "/nonexistent"})
    runs = []
    try:
        out = os.path.join(w.dir, "run", "dump")
        for _ in range(n):
            files, xml = Gen(r, True).program()
            write(w.confdir, files, xml, os.path.join(w.dir, "run"), WRAP % out)
            how = r.random()
            if os.path.exists(out):
                os.unlink(out)
            if how < .5:
                os.kill(w.proc.pid, 1)
                t0 = time.time()
                while not os.path.exists(out) and time.time() - t0 < 20 and w.alive():
                    time.sleep(.002)
                if w.alive():
                    w.wait_idle()
            else:
                rep = control(w.ctl_path, b"reload")
            d = open(out).read().replace(os.path.join(w.dir, "run"), "@RUN@") if os.path.exists(out) else ""
            runs.append(run_of("reload", files, [], w.proc.poll(), d, w.logtail(800)))
            if runs[-1]["died"]:
                break
            g = control(w.ctl_path, b"get-configuration")
            runs.append(run_of("get", files, xml, w.proc.poll(), g[g.find(b"<configuration>"):].decode(), w.logtail(800)))
            if runs[-1]["died"]:
                break
            # the custom file is given through the controller as well
    except (world.DaemonDied, OSError) as x:
        runs.append(run_of("reload", files, [], w.proc.poll(), "", str(x) + w.logtail(800)))
    finally:
        w.stop()
    return runs


FAMS = {"fresh": fresh, "served": served}
RULE = ("a trace is one configuration printed by a fresh manager and the print loaded again, or one history of reloads of a running manager; "
        "distinct = different files (or different way of observing them)")
P = {"K03": ({"fresh": 3, "served": 1}, None, None)}


def gather(fam, seed, n, bld, until=None):
    r = random.Random("%s/%s" % (fam, seed))
    out = []
    if fam == "served":
        return [{"runs": served(r, bld, n), "tag": "%s/%s" % (fam, seed)}]
    box = Box(bld)
    try:
        for i in range(n):
            if until and time.time() > until:
                break
            out.append({"runs": fresh(random.Random("%s/%s/%d" % (fam, seed, i)), box), "tag": "%s/%s/%d" % (fam, seed, i)})
    finally:
        box.close()
    return out


def plan(prop, tier, seed, nproc, rounds, per):
    r = random.Random("%s/%s/%s" % (prop, tier, seed))
    names = [f for f, w in P[prop][0].items() for _ in range(w)]
    jobs = []
    for rnd in range(rounds * 2):
        batch = []
        for k in range(nproc * 4):
            f = names[k % len(names)]
            batch.append((f, "%s.%d.%d" % (seed, rnd, k), 6 if f == "fresh" else 12))
        r.shuffle(batch)
        jobs += [batch[i::nproc] for i in range(nproc)]
    return jobs


def what(t, m):
    r = t["runs"][m["step"] - 1]
    ks = m["differs"]
    got, exp = r["obs"], m["exp"]
    l = []
    for k in ks[:4]:
        if k in exp["v"]:
            l.append("%s: got %s, expected %s" % (k, got["v"].get(k), exp["v"][k]))
        elif k == "died":
            l.append("no configuration printed (%s)" % r.get("log", "")[-400:])
        elif k == "milters":
            l.append("milters %s, expected %s" % ([x["n"] for x in got["ms"]], [x["n"] for x in exp["ms"]]))
        elif k == "conditions":
            l.append("conditions %s, expected %s" % (got["cs"], exp["cs"]))
        else:
            f = k[7:]
            for a, b in zip(got["ms"], exp["ms"]):
                x, y = (a["c"], b["c"]) if f == "applicable_conditions" else (a["f"].get(f), b["f"][f])
                if x != y:
                    l.append("milter %s: %s is %s, expected %s" % (a["n"], f, x, y))
    return "%s (%s, run %d): %s" % (t["tag"], r["how"], m["step"], "; ".join(l))


def shard(job):
    prop, jobs, bld, until = job
    res = dict(traces=0, events=0, states=0, setups=0, shapes=set(), bad=[], other=0, sample=None, err=[], fams=collections.Counter(), kinds=collections.Counter())
    trs, meta = [], []
    for fam, seed, n in jobs:
        if until and time.time() > until:
            break
        try:
            o = gather(fam, seed, n, bld, until)
        except Exception:
            res["err"].append(traceback.format_exc()[-1500:])
            continue
        res["setups"] += 1
        trs += o
        meta += [(fam, seed, n)] * len(o)
    if trs:
        mm, states = tlc(trs, "ConfigTrace")
        res["states"] = states
        bad = set()
        for m in mm:
            t = trs[m["trace"] - 1]
            fam, seed, n = meta[m["trace"] - 1]
            bad.add(m["trace"])
            res["bad"].append(dict(module="config", fam=fam, seed=seed, nses=n, cats=m["differs"], trace=t["runs"][m["step"] - 1], step=m["step"], what=what(t, m)))
        for i, t in enumerate(trs):
            res["traces"] += i + 1 not in bad
            res["events"] += len(t["runs"])
            for r in t["runs"]:
                res["shapes"].add(json.dumps([r["how"], r["files"], r["xml"]], sort_keys=True))
                res["kinds"][r["how"]] += 1
            res["fams"][meta[i][0]] += 1
        res["shapes"] = {__import__("hashlib").md5(x.encode()).hexdigest() for x in res["shapes"]}
        ok = [t for i, t in enumerate(trs) if i + 1 not in bad and meta[i][0] == "fresh" and len(json.dumps(t)) < 20000]
        if ok:
            t = max(ok, key=lambda t: len(json.dumps(t["runs"][0]["files"])))
            res["sample"] = {"tag": t["tag"], "files": {f: text(s) for f, s in t["runs"][0]["files"].items()},
                             "milters": [m["n"] for m in t["runs"][0]["obs"]["ms"]]}
    return res


def confirm(prop, b, bld):
    r = shard((prop, [(b["fam"], b["seed"], b["nses"])], bld, None))
    for x in r["bad"]:
        if set(x["cats"]) & set(b["cats"]):
            return x
    return None


def replay(prop, b):
    again = confirm(prop, b, mmbuild.build())
    print("reproduced: " + again["what"] if again else "not reproduced")
    return 1 if again else 0


if __name__ == "__main__":
    bld = mmbuild.build()
    import multiprocessing
    fam, seed, nd, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    seen = collections.Counter()
    tot = 0
    with multiprocessing.Pool(8) as pool:
        for r in pool.imap_unordered(shard, [("K03", [(fam, "%s.%d" % (seed, k), n)], bld, None) for k in range(nd)]):
            tot += r["traces"]
            for e in r["err"]:
                print("ERR", e)
            for b in r["bad"]:
                for c in b["cats"]:
                    seen[c] += 1
                if max(seen[c] for c in b["cats"]) <= 2:
                    print(b["what"][:700])
    print(tot, "ok", dict(seen))
