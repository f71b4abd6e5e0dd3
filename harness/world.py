"""Runs the real daemon and plays its peers, one deterministic step at a time."""
import array, fcntl, mmap, os, pwd, select, shutil, signal, socket, struct, subprocess, tempfile, time
import mmbuild, wire

SIOCOUTQ = 0x5411
NOBODY = pwd.getpwnam("nobody")


class HarnessError(Exception):
    """The harness could not do its job (no verdict)."""


class DaemonDied(Exception):
    def __init__(self, status, log):
        super().__init__("daemon exited: %s\n%s" % (status, log))
        self.status = status


def _shim(bld):
    so = os.path.join(bld, "lib", "vclock.so")
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp,
                               os.path.join(mmbuild.VERIF, "harness/shim/vclock.c"), "-ldl"])
        os.chmod(tmp, 0o755)
        os.rename(tmp, so)
    return so


class Peer:
    __slots__ = ("sock", "unf", "dec", "eof", "err")

    def __init__(self, sock, dec):
        self.sock, self.dec = sock, dec
        self.unf = wire.Unframer()
        self.eof = False


class World:
    def __init__(self, bld=None, children=(), config="", env=None, args=(),
                 start=True, mta_spec="unix", files=None, listen=True, workers=0):
        self.bld = bld or mmbuild.build()
        self.dir = tempfile.mkdtemp(prefix="mmv")
        os.chmod(self.dir, 0o755)
        self.children = list(children)
        self.listeners = {}
        self.peers = {}
        self.cur = None
        self.proc = None
        self.new_child = []
        self.autoread = True
        self.lossy = False
        self.frag = None      # optional fragmentation function
        self.now = 0
        self.env, self.args = env or {}, list(args)
        self.workers = workers
        self.leaving = False  # processes may exit
        self.tick = 0         # libev fires a timer only when its moment is over
        rundir = os.path.join(self.dir, "run")
        os.mkdir(rundir)
        os.chown(rundir, NOBODY.pw_uid, NOBODY.pw_gid)
        confdir = os.path.join(self.dir, "conf")
        os.mkdir(confdir)
        os.chown(confdir, NOBODY.pw_uid, NOBODY.pw_gid)
        self.confdir = confdir
        self.mta_path = os.path.join(rundir, "mm.sock")
        self.ctl_path = os.path.join(rundir, "ctl.sock")
        for f, t in (files or {}).items():
            p = os.path.join(confdir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        self.write_config(config)
        self.vfile = os.path.join(self.dir, "clock")
        with open(self.vfile, "wb") as f:
            f.write(b"\0" * 4096)
        os.chmod(self.vfile, 0o666)
        self.vfd = os.open(self.vfile, os.O_RDWR)
        self.vmap = mmap.mmap(self.vfd, 4096)
        self.poll = select.poll()
        if listen:
            for c in self.children:
                self.listen(c)
        if start:
            self.start()

    # -- configuration
    def child_path(self, c):
        return os.path.join(self.dir, "c_%s.sock" % c)

    def write_config(self, config):
        self.config = config
        pre = 'manager.connection_spec = "unix:%s"\n' % self.mta_path
        pre += 'manager.unix_socket_mode = 0666\n'
        text = pre + config.replace("@DIR@", self.dir).replace("@CTL@", self.ctl_path)
        open(os.path.join(self.confdir, "milter-manager.conf"), "w").write(text)

    def listen(self, c):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        p = self.child_path(c)
        if os.path.exists(p):
            os.unlink(p)
        s.bind(p)
        os.chmod(p, 0o777)
        s.listen(64)
        s.setblocking(False)
        self.listeners[c] = s

    def unlisten(self, c):
        s = self.listeners.pop(c, None)
        if s:
            s.close()
            os.unlink(self.child_path(c))

    # -- process
    def start(self, wait=True):
        env = {"PATH": os.environ["PATH"], "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
               "HOME": self.dir, "TMPDIR": os.path.join(self.dir, "run"),
               "VCLOCK_FILE": self.vfile, "LD_PRELOAD": _shim(self.bld),
               "MILTER_MANAGER_CONFIG_DIR": self.confdir}
        if os.path.exists(os.path.join(self.bld, "asan")):
            env["LD_PRELOAD"] = open(os.path.join(self.bld, "asan")).read() + " " + env["LD_PRELOAD"]
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:handle_segv=1:allocator_may_return_null=1"
            env["G_SLICE"] = "always-malloc"
        env.update(self.env)
        self.vmap[8:24] = b"\0" * 16
        self.log = open(os.path.join(self.dir, "log"), "ab")
        self.proc = subprocess.Popen(
            [os.path.join(self.bld, "bin/milter-manager"), "--config-dir", self.confdir] + self.args,
            stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=env,
            cwd=os.path.join(self.dir, "run"), user=NOBODY.pw_uid, group=NOBODY.pw_gid,
            extra_groups=[], start_new_session=True)
        self.pids = [self.proc.pid]
        if not wait:
            return
        t0 = time.time()
        while not os.path.exists(self.mta_path):
            if self.proc.poll() is not None:
                raise DaemonDied(self.proc.returncode, self.logtail())
            if time.time() - t0 > 60:
                raise HarnessError("daemon does not listen\n" + self.logtail())
            time.sleep(0.002)
        while self.workers:
            pids = [int(x) for x in open("/proc/%d/task/%d/children" % (self.proc.pid, self.proc.pid)).read().split()]
            # a worker still has to watch the listening socket
            if len(pids) == self.workers:
                self.pids += pids
                break
            if self.proc.poll() is not None:
                raise DaemonDied(self.proc.returncode, self.logtail())
            if time.time() - t0 > 60:
                raise HarnessError("workers do not start\n" + self.logtail())
            time.sleep(0.002)
        self.wait_idle()

    def logtail(self, n=3000):
        try:
            return open(os.path.join(self.dir, "log"), "rb").read()[-n:].decode("latin-1")
        except OSError:
            return ""

    def alive(self):
        return self.proc.poll() is None

    def state(self, pid):
        """S when every thread sleeps (connections are accepted in a thread of their own)"""
        r = "X"
        try:
            ts = os.listdir("/proc/%d/task" % pid)
        except OSError:
            return r
        for t in ts:
            try:
                with open("/proc/%d/task/%s/stat" % (pid, t), "rb") as f:
                    d = f.read()
            except OSError:
                if t == str(pid):
                    return "X"
                return "R"
            r = chr(d[d.rindex(b")") + 2])
            if r != "S":
                return r
        return r

    def left(self):
        self.proc.poll()
        self.pids = [p for p in self.pids if self.state(p) not in "XZ"]

    def wait_idle(self, timeout=60):
        t0 = time.time()
        k = 0
        while True:
            st = [self.state(p) for p in self.pids]
            if all(s == "S" for s in st):
                k += 1
                if k >= 2:
                    return
                continue
            k = 0
            if any(s in "XZ" for s in st):
                if self.leaving:
                    self.left()
                    continue
                self.proc.poll()
                raise DaemonDied(self.proc.returncode, self.logtail())
            if time.time() - t0 > timeout:
                raise HarnessError("daemon does not become idle (states %s)\n%s" % (st, self.logtail()))
            time.sleep(0)

    # -- peers
    def connect_mta(self, sid, path=None):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.connect(path or self.mta_path)
        s.setblocking(False)
        self.add_peer((sid, "mta"), s, wire.dec_rep)
        self.cur = sid

    def newkey(self, c):
        """the name of a new connection to a milter"""
        return self.cur, c

    def add_peer(self, key, s, dec):
        self.peers[key] = Peer(s, dec)

    def send(self, key, data):
        self.cur = key[0]
        p = self.peers[key]
        pieces = self.frag(data) if self.frag else [data]
        for d in pieces:
            self._sendall(p, d)
            if len(pieces) > 1:
                self.wait_drained(p)
                self.wait_idle()

    def wait_drained(self, p):
        k = 0
        while self.outq(p) and not p.eof and k < 20:    # it may have stopped listening to this peer
            self.wait_idle()
            k += 1

    def _sendall(self, p, d):
        mv = memoryview(d)
        t0 = time.time()
        while mv:
            try:
                n = p.sock.send(mv, socket.MSG_NOSIGNAL)
                mv = mv[n:]
            except BlockingIOError:
                if self.lossy and time.time() - t0 > 1:      # it has stopped listening to this peer
                    return
                if time.time() - t0 > 30:
                    raise HarnessError("daemon does not read")
                self._drain()
                time.sleep(0)
            except (BrokenPipeError, ConnectionResetError):
                return

    def close(self, key):
        self.cur = key[0]
        p = self.peers.pop(key)
        p.sock.close()

    def half_close(self, key):
        self.cur = key[0]
        self.peers[key].sock.shutdown(socket.SHUT_WR)

    def outq(self, p):
        buf = array.array("i", [0])
        try:
            fcntl.ioctl(p.sock.fileno(), SIOCOUTQ, buf)
        except OSError:
            return 0
        return buf[0]

    def _drain(self):
        """Read everything readable; returns list of (key, k, a, s)."""
        out = []
        for c, l in list(self.listeners.items()):
            while True:
                try:
                    s, _ = l.accept()
                except BlockingIOError:
                    break
                s.setblocking(False)
                key = self.newkey(c)
                old = self.peers.pop(key, None)
                if old:
                    old.sock.close()
                self.add_peer(key, s, wire.dec_cmd)
                out.append((key, "open", [], []))
        for key, p in list(self.peers.items()):
            if p.eof:
                continue
            while True:
                try:
                    d = p.sock.recv(262144)
                except BlockingIOError:
                    break
                except (ConnectionResetError, BrokenPipeError):
                    d = b""
                if d == b"":
                    p.eof = True
                    if p.unf.buf:
                        out.append((key, "truncated", [], []))
                    out.append((key, "eof", [], []))
                    break
                for pk in p.unf.feed(d):
                    try:
                        k, a, s = p.dec(pk)
                    except Exception as e:   # undecodable packet from the daemon
                        k, a, s = "undecodable", [wire.u(pk[:64])], []
                    out.append((key, k, a, s))
        return out

    def settle(self, timeout=60):
        out = []
        quiet = 0
        t0 = time.time()
        while True:
            o = self._drain()
            out += o
            if o:
                quiet = 0
            if not quiet:
                full = self.vmap[8:24]
            busy = False
            # sends, closes and connects wake a sleeping process
            # synchronously, so "S" means it has consumed all it will
            for pid in self.pids:
                st = self.state(pid)
                if st in "XZ" and self.leaving:
                    self.left()
                    busy = True
                    break
                if st in "XZ":
                    self.proc.poll()
                    out += self._drain()
                    raise DaemonDied(self.proc.returncode, self.logtail())
                if st != "S":
                    busy = True
                    break
            if busy:
                quiet = 0
                if time.time() - t0 > timeout:
                    raise HarnessError("no quiescence\n" + self.logtail())
                time.sleep(0)
                continue
            if not o:
                quiet += 1
                if quiet >= 2:
                    # waiting until it may write: what we have read makes
                    # room, but the kernel may tell it later
                    if (full[:8] != full[8:] or self.vmap[8:24] != full) and time.time() - t0 < 5:
                        time.sleep(.0005)
                        quiet = 0
                        continue
                    return out

    def advance(self, seconds):
        """Advance the daemon's clock and let it fire its timers."""
        self.wait_idle()
        self.now += int(seconds * 1e9) + self.tick
        self.vmap[0:8] = struct.pack("q", self.now)
        for p in self.pids:
            os.kill(p, signal.SIGURG)

    def nfds(self, pid=None):
        return sum(len(os.listdir("/proc/%d/fd" % p)) for p in ([pid] if pid else self.pids))

    def stop(self):
        for p in self.peers.values():
            p.sock.close()
        for l in self.listeners.values():
            l.close()
        self.peers, self.listeners = {}, {}
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
        if self.proc:
            self.proc.wait()
            self.log.close()
            self.proc = None
        self.vmap.close()
        os.close(self.vfd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()
