"""Milter wire protocol, independent of the code under test.

A decoded packet is (k, a, s): kind, list of string arguments, list of
[name, value] pairs treated as a set.  Bytes are kept 1:1 as latin-1 text."""
import hashlib, struct

ACTIONS = [("addhdrs", 1), ("chgbody", 2), ("addrcpt", 4), ("delrcpt", 8),
           ("chghdrs", 0x10), ("quarantine", 0x20), ("chgfrom", 0x40),
           ("addrcptpar", 0x80), ("setsymlist", 0x100)]
STEPS = [("noconnect", 1), ("nohelo", 2), ("nomail", 4), ("norcpt", 8),
         ("nobody", 0x10), ("nohdrs", 0x20), ("noeoh", 0x40),
         ("nr_hdr", 0x80), ("nounknown", 0x100), ("nodata", 0x200),
         ("skip", 0x400), ("rcptrej", 0x800), ("nr_conn", 0x1000),
         ("nr_helo", 0x2000), ("nr_mail", 0x4000), ("nr_rcpt", 0x8000),
         ("nr_data", 0x10000), ("nr_unknown", 0x20000), ("nr_eoh", 0x40000),
         ("nr_body", 0x80000), ("leadspc", 0x100000)]
MSTAGE = {0: "connect", 1: "helo", 2: "mail", 3: "rcpt", 4: "data", 5: "eom", 6: "eoh"}
MSTAGE_R = {v: k for k, v in MSTAGE.items()}
CMD = {"abort": b"A", "body": b"B", "connect": b"C", "macro": b"D", "eom": b"E",
       "helo": b"H", "quitnc": b"K", "header": b"L", "mail": b"M", "eoh": b"N",
       "neg": b"O", "quit": b"Q", "rcpt": b"R", "data": b"T", "unknown": b"U"}
CMD_R = {v: k for k, v in CMD.items()}
# macro packet carries the letter of the command it belongs to
REP = {"addrcpt": b"+", "delrcpt": b"-", "addrcptpar": b"2", "shutdown": b"4",
       "accept": b"a", "replbody": b"b", "continue": b"c", "discard": b"d",
       "chgfrom": b"e", "connfail": b"f", "addhdr": b"h", "inshdr": b"i",
       "setsymlist": b"l", "chghdr": b"m", "neg": b"O", "progress": b"p",
       "quarantine": b"q", "reject": b"r", "skip": b"s", "tempfail": b"t",
       "replycode": b"y"}
REP_R = {v: k for k, v in REP.items()}
BODYTOK = 4  # bodies used by the harness are made of tokens of this many bytes
_cache = {}


def set_token(n):
    global BODYTOK
    BODYTOK = n
    _cache.clear()


def expand(t):
    """the bytes of a body token: itself, or (large tokens) itself and filler made from it"""
    if len(t) >= BODYTOK or BODYTOK <= 4:
        return b(t)
    d = _cache.get(t)
    if d is None:
        d = _cache[t] = b(t) + hashlib.shake_128(b(t)).digest(BODYTOK - len(t))
    return d


def body(a):
    return b"".join(expand(x) for x in a)


def b(s):
    return s.encode("latin-1") if isinstance(s, str) else s


def u(x):
    return x.decode("latin-1")


def frame(data):
    return struct.pack(">I", len(data)) + data


def flags(names, table):
    t = dict(table)
    v = 0
    for n in names:
        v |= t[n]
    return v


def names(v, table):
    out = [n for n, bit in table if v & bit]
    rest = v & ~sum(bit for _, bit in table)
    if rest:
        out.append("0x%x" % rest)
    return out


def tokens(data):
    o = []
    for i in range(0, len(data), BODYTOK):
        d = data[i:i + BODYTOK]
        t = u(d)
        if BODYTOK > 4:
            t = u(d[:4]) if expand(u(d[:4])) == d else "bad:%d:%s" % (len(d), hashlib.md5(d).hexdigest()[:8])
        o.append(t)
    return o


def neg(version, actions, steps, macros=None):
    """macros: dict stage -> list of names (milter side only)."""
    d = struct.pack(">III", version, flags(actions, ACTIONS), flags(steps, STEPS))
    for st, ns in (macros or {}).items():
        d += struct.pack(">I", MSTAGE_R[st]) + b(" ".join(ns)) + b"\0"
    return frame(b"O" + d)


def cmd(k, *a, s=()):
    c = CMD[k]
    if k == "connect":
        host, fam, port, addr = a
        d = b(host) + b"\0" + b(fam)
        if fam != "U":
            d += struct.pack(">H", int(port)) + b(addr) + b"\0"
        return frame(c + d)
    if k == "macro":
        d = CMD[a[0]]
        for n, v in s:
            d += b(n) + b"\0" + b(v) + b"\0"
        return frame(c + d)
    if k in ("body", "eom"):
        return frame(c + body(a))
    if k in ("data", "eoh", "abort", "quit", "quitnc"):
        return frame(c)
    if k == "header":
        return frame(c + b(a[0]) + b"\0" + b(a[1]) + b"\0")
    # helo mail rcpt unknown: NUL terminated strings
    return frame(c + b"".join(b(x) + b"\0" for x in a))


def rep(k, *a):
    c = REP[k]
    if k in ("addhdr", "addrcpt", "delrcpt", "addrcptpar", "chgfrom", "quarantine",
             "replycode"):
        return frame(c + b"".join(b(x) + b"\0" for x in a))
    if k in ("inshdr", "chghdr"):
        return frame(c + struct.pack(">I", int(a[0])) + b(a[1]) + b"\0" + b(a[2]) + b"\0")
    if k == "replbody":
        return frame(c + body(a))
    return frame(c)


def _strs(d):
    if d.endswith(b"\0"):
        d = d[:-1]
    return [u(x) for x in d.split(b"\0")]


def _opt(d):
    v, ac, st = struct.unpack(">III", d[:12])
    s = [["v", str(v)]] + [["a", n] for n in names(ac, ACTIONS)] + \
        [["p", n] for n in names(st, STEPS)]
    rest = d[12:]
    while len(rest) >= 4:
        stage, = struct.unpack(">I", rest[:4])
        e = rest.index(b"\0", 4)
        st = "m" + MSTAGE.get(stage, str(stage))
        ns = u(rest[4:e]).split()
        s += [[st, n] for n in ns] if ns else [[st, ""]]
        rest = rest[e + 1:]
    return s


def dec_cmd(d):
    """packet content -> (k, a, s) for packets a milter receives"""
    k = CMD_R.get(d[:1], "?" + u(d[:1]))
    r = d[1:]
    if k == "neg":
        return (k, [], _opt(r))
    if k == "connect":
        i = r.index(b"\0")
        host, fam = u(r[:i]), u(r[i + 1:i + 2])
        if fam == "U":
            return (k, [host, fam, "", u(r[i + 2:])], [])
        port, = struct.unpack(">H", r[i + 2:i + 4])
        return (k, [host, fam, str(port), u(r[i + 4:].rstrip(b"\0"))], [])
    if k == "macro":
        st = CMD_R.get(r[:1], "?" + u(r[:1]))
        f = _strs(r[1:]) if len(r) > 1 else []
        return (k, [st], [[f[i], f[i + 1] if i + 1 < len(f) else "<missing>"]
                          for i in range(0, len(f), 2)])
    if k in ("body", "eom"):
        return (k, tokens(r), [])
    if k in ("data", "eoh", "abort", "quit", "quitnc"):
        return (k, [u(r)] if r else [], [])
    if k.startswith("?"):
        return (k, [u(r)], [])
    return (k, _strs(r), [])


def dec_rep(d):
    """packet content -> (k, a, s) for packets the MTA receives"""
    k = REP_R.get(d[:1], "?" + u(d[:1]))
    r = d[1:]
    if k == "neg":
        return (k, [], _opt(r))
    if k in ("inshdr", "chghdr"):
        return (k, [str(struct.unpack(">I", r[:4])[0])] + _strs(r[4:]), [])
    if k == "replbody":
        return (k, tokens(r), [])
    if k in ("addhdr", "addrcpt", "delrcpt", "addrcptpar", "chgfrom", "quarantine",
             "replycode", "setsymlist"):
        return (k, _strs(r), [])
    return (k, [u(r)] if r else [], [])


class Unframer:
    def __init__(self):
        self.buf = b""

    def feed(self, data):
        self.buf += data
        out = []
        while len(self.buf) >= 4:
            n, = struct.unpack(">I", self.buf[:4])
            if len(self.buf) < 4 + n:
                break
            out.append(self.buf[4:4 + n])
            self.buf = self.buf[4 + n:]
        return out
