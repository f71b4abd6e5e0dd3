"""Small stand-alone harness for the demonstrations: starts the milter-manager
built in the current directory with a scratch configuration and plays its
peers over unix sockets.  Everything it creates is in one scratch directory."""
import glob, os, pwd, shutil, signal, socket, struct, subprocess, sys, tempfile, time

TOP = os.getcwd()
B = os.path.join(TOP, "_build")
ACT_ALL, STEP_NONE = 0x1ff, 0


class Fail(Exception):
    pass


def check(cond, msg):
    if not cond:
        raise Fail(msg)


def environ():
    e = {"PATH": os.environ["PATH"], "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"}
    libs = sorted({os.path.dirname(p) for p in glob.glob(B + "/milter/*/.libs/*.so") + glob.glob(B + "/libmilter/.libs/*.so")})
    e["LD_LIBRARY_PATH"] = ":".join(libs)
    e["MILTER_MANAGER_CONFIGURATION_MODULE_DIR"] = B + "/module/configuration/ruby/.libs"
    e["MILTER_MANAGER_RUBYLIB"] = ":".join([TOP + "/binding/ruby/lib"] +
                                           [B + "/binding/ruby/ext/%s/.libs" % x for x in ("core", "client", "server", "manager")])
    return e


def pk(c, data=b""):
    if isinstance(c, str):
        c = c.encode()
    if isinstance(data, str):
        data = data.encode("latin-1")
    return struct.pack(">I", 1 + len(data)) + c + data


def z(*a):
    return b"".join((x.encode("latin-1") if isinstance(x, str) else x) + b"\0" for x in a)


def neg(ver=6, acts=ACT_ALL, steps=STEP_NONE, extra=b""):
    return pk("O", struct.pack(">III", ver, acts, steps) + extra)


def connect_pk(host="localhost", port=2525, addr="127.0.0.1"):
    return pk("C", z(host) + b"4" + struct.pack(">H", port) + z(addr))


class Conn:
    def __init__(self, s, name):
        self.s, self.name, self.buf = s, name, b""

    def send(self, d):
        try:
            self.s.sendall(d)
        except OSError:
            pass

    def get(self, timeout=4.0):
        """next packet (letter, data); None after timeout; ("", b"") at end of stream"""
        end = time.time() + timeout
        while True:
            if len(self.buf) >= 4:
                n, = struct.unpack(">I", self.buf[:4])
                if len(self.buf) >= 4 + n:
                    d, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
                    return d[:1].decode("latin-1"), d[1:]
            t = end - time.time()
            if t <= 0:
                return None
            self.s.settimeout(t)
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                return None
            except OSError:
                return ("", b"")
            if not d:
                return ("", b"")
            self.buf += d

    def expect(self, letters, timeout=4.0):
        """next packet other than macros must be one of these"""
        while True:
            p = self.get(timeout)
            if p and p[0] == "D" and "D" not in letters:
                continue
            check(p is not None and p[0] in list(letters),
                  "%s: expected %s, got %r" % (self.name, letters, p))
            return p

    def nothing(self, timeout=0.5):
        p = self.get(timeout)
        check(p is None, "%s: expected nothing, got %r" % (self.name, p))

    def until(self, letters, timeout=4.0):
        """packets up to and including the first of these"""
        out = []
        while True:
            p = self.get(timeout)
            check(p is not None and p[0] != "", "%s: waiting for %s, got %r after %r" % (self.name, letters, p, out))
            out.append(p)
            if p[0] in letters:
                return out


class Manager:
    """kids: list of (name, extra configuration lines)"""

    def __init__(self, kids, conf="", args=(), tries=1):
        self.dir = tempfile.mkdtemp(prefix="mmdemo")
        os.chmod(self.dir, 0o755)
        nobody = pwd.getpwnam("nobody")
        self.run = os.path.join(self.dir, "run")
        os.mkdir(self.run)
        self.conf = os.path.join(self.dir, "conf")
        os.mkdir(self.conf)
        for d in (self.run, self.conf):
            os.chown(d, nobody.pw_uid, nobody.pw_gid)
        self.sock = os.path.join(self.run, "mm.sock")
        self.ctl = os.path.join(self.run, "ctl.sock")
        self.kids = [k[0] for k in kids]
        self.lis = {}
        self.kidconf = kids
        self.text(conf)
        for k in self.kids:
            self.listen(k)
        env = environ()
        env.update(HOME=self.dir, TMPDIR=self.run)
        self.log = open(os.path.join(self.dir, "log"), "wb")
        exe = B + "/src/.libs/milter-manager"
        if not os.path.exists(exe):
            exe = B + "/src/milter-manager"
        kw = dict(user=nobody.pw_uid, group=nobody.pw_gid, extra_groups=[]) if os.geteuid() == 0 else {}
        self.p = subprocess.Popen([exe, "--config-dir", self.conf] + list(args), stdin=subprocess.DEVNULL, stdout=self.log,
                                  stderr=self.log, env=env, cwd=self.run, start_new_session=True, **kw)
        t0 = time.time()
        while not os.path.exists(self.sock):
            if self.p.poll() is not None or time.time() - t0 > 30:
                self.tail()
                sys.exit("cannot start milter-manager")
            time.sleep(.02)
        time.sleep(.1)

    def text(self, conf):
        o = ['manager.connection_spec = "unix:%s"' % self.sock, "manager.unix_socket_mode = 0666"]
        o.append(conf.replace("@CTL@", self.ctl).replace("@DIR@", self.dir))
        for n, extra in self.kidconf:
            o += ['define_milter("%s") do |m|' % n, '  m.connection_spec = "unix:%s/c_%s"' % (self.dir, n)]
            o += ["  " + x for x in extra.splitlines()] + ["end"]
        with open(os.path.join(self.conf, "milter-manager.conf"), "w") as f:
            f.write("\n".join(o) + "\n")

    def tail(self):
        sys.stderr.write(open(os.path.join(self.dir, "log"), errors="replace").read()[-2000:])

    def listen(self, k):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        p = os.path.join(self.dir, "c_" + k)
        if os.path.exists(p):
            os.unlink(p)
        s.bind(p)
        os.chmod(p, 0o777)
        s.listen(16)
        self.lis[k] = s

    def unlisten(self, k):
        self.lis.pop(k).close()
        os.unlink(os.path.join(self.dir, "c_" + k))

    def accept(self, k, timeout=4.0):
        self.lis[k].settimeout(timeout)
        try:
            s, _ = self.lis[k].accept()
        except socket.timeout:
            raise Fail("milter %s was not connected to" % k)
        return Conn(s, k)

    def mta(self):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.connect(self.sock)
        return Conn(s, "MTA")

    def open(self, ver=6, acts=ACT_ALL, steps=STEP_NONE, answers=None):
        """MTA connection with everything negotiated -> mta, kid...   answers: {kid: packet}"""
        m = self.mta()
        m.send(neg(ver, acts, steps))
        ks = []
        for k in self.kids:
            c = self.accept(k)
            c.expect("O")
            ks.append(c)
        for c in ks:
            c.send((answers or {}).get(c.name, neg(ver, acts, 0)))
        m.offer = m.expect("O")
        return [m] + ks

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Filter:
    """a small filter using the libmilter interface, compiled against the library built in _build; body: C code with the
    callbacks and `struct smfiDesc desc = {...};`"""

    def __init__(self, body, timeout=None):
        self.dir = tempfile.mkdtemp(prefix="mmdemo")
        self.sock = os.path.join(self.dir, "f.sock")
        src = os.path.join(self.dir, "f.c")
        with open(src, "w") as f:
            f.write("""#include <libmilter/mfapi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static FILE *out;
#define SAY(...) (fprintf(out, __VA_ARGS__), fputc('\\n', out), fflush(out))
%s
int main(int argc, char **argv)
{
    out = fopen(argv[2], "w");
    if (smfi_register(desc) == MI_FAILURE) return 9;
    smfi_setconn(argv[1]);
    %s
    return smfi_main() == MI_SUCCESS ? 0 : 1;
}
""" % (body, "smfi_settimeout(%d);" % timeout if timeout else ""))
        os.mkdir(os.path.join(self.dir, "libmilter"))
        for h in ("mfapi.h", "mfdef.h"):
            shutil.copy(os.path.join(TOP, "libmilter", h), os.path.join(self.dir, "libmilter", h))
        env = environ()
        env["TMPDIR"] = self.dir
        exe = os.path.join(self.dir, "f")
        r = subprocess.run(["gcc", "-w", "-o", exe, src, "-I" + self.dir, B + "/libmilter/.libs/libmilter.so",
                            "-Wl,-rpath-link," + env["LD_LIBRARY_PATH"]], capture_output=True, text=True, env=env)
        if r.returncode:
            sys.exit("cannot compile the filter: " + r.stderr[-1500:])
        self.outf = os.path.join(self.dir, "out")
        open(self.outf, "w").close()
        self.p = subprocess.Popen([exe, "unix:" + self.sock, self.outf], stdin=subprocess.DEVNULL, env=env, start_new_session=True)
        t0 = time.time()
        while not os.path.exists(self.sock):
            if self.p.poll() is not None or time.time() - t0 > 20:
                sys.exit("cannot start the filter")
            time.sleep(.02)
        time.sleep(.1)

    def said(self):
        return open(self.outf).read().splitlines()

    def mta(self, ver=6, acts=ACT_ALL, steps=STEP_NONE):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.connect(self.sock)
        c = Conn(s, "MTA")
        c.send(neg(ver, acts, steps))
        c.offer = c.expect("O")
        return c

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def all_continue(m, ks, packet):
    """MTA command that goes to all of ks at once, all continue"""
    m.send(packet)
    for k in ks:
        k.expect(packet[4:5].decode())
    for k in ks:
        k.send(pk("c"))
    m.expect("c")


def seq_continue(m, ks, packet):
    """MTA command that goes to ks one after another, all continue"""
    m.send(packet)
    for k in ks:
        k.expect(packet[4:5].decode())
        k.send(pk("c"))
    m.expect("c")


def envelope(m, ks, n=1, sender="<from@example.com>", data=True):
    all_continue(m, ks, pk("M", z(sender)))
    for i in range(n):
        all_continue(m, ks, pk("R", z("<to%d@example.com>" % (i + 1))))
    if data:
        all_continue(m, ks, pk("T"))


def hello(m, ks):
    all_continue(m, ks, connect_pk())
    all_continue(m, ks, pk("H", z("mail.example.com")))


def main(fn):
    try:
        fn()
    except Fail as x:
        print("DEMO: " + str(x))
        sys.exit(1)
    print("DEMO: fine")
    sys.exit(0)
