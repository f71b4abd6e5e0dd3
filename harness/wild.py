"""Bytes that are no (or not the expected) milter protocol."""
import struct
import wire

# complete packets that are no replies: whoever sends one has failed
MALFORMED = [b"", b"Z", b"\0", b"\xff", b"A", b"cx", b"ax", b"r\0", b"t\0\0", b"d ", b"sx", b"px", b"y", b"y55", b"y550 no NUL", b"y650 what\0", b"y5x0 what\0",
             b"y\0", b"h", b"h\0", b"h\0\0", b"hX", b"hX\0v", b"i", b"i\0\0\0", b"i\0\0\0\0", b"i\0\0\0\0\0", b"iA\0B\0", b"i\0\0\0\1X\0v", b"m\0\0\0\1X\0v",
             b"m\0\0\0\1\0v\0", b"m\0\1", b"+", b"+\0", b"+<a@b>", b"2", b"2\0", b"2<a@b>", b"-", b"-\0", b"-<a@b>", b"e", b"e\0", b"e<a@b>", b"q", b"q\0", b"qwhy",
             b"O", b"O\0\0\0\6", b"O\0\0\0\6\0\0\0\0", b"O\0\0\0\6\0\0\0\0\0\0", b"O\0\0\0\6\0\0\0\0\0\0\0\0x", b"O\0\0\0\6\0\0\0\0\0\0\0\0\0\0\0\1",
             b"O\0\0\0\6\0\0\0\0\0\0\0\0\0\0\0\1noNUL", b"O\0\0\0\6\0\0\0\0\0\0\0\0\0\0\0\x63i\0"]

CMDS = [("abort",), ("quit",), ("data",), ("eoh",), ("helo", "wild"), ("mail", "<w@x>"), ("mail", "<w@x>", "SIZE=1"), ("rcpt", "<r@x>"), ("unknown", "WILD"),
        ("header", "Wild", "value"), ("header", "Wild", ""), ("body", "wild"), ("body",), ("eom",), ("eom", "wild"), ("connect", "h", "4", "25", "192.0.2.9"),
        ("connect", "h", "6", "25", "2001:db8::1"), ("connect", "h", "L", "0", "/x"), ("connect", "h", "U", "", ""), ("quitnc",)]
REPS = [("continue",), ("accept",), ("reject",), ("tempfail",), ("discard",), ("skip",), ("progress",), ("shutdown",), ("connfail",), ("replycode", "550 5.7.1 wild"),
        ("replycode", "451-4.1.1 a\r\n451 4.1.1 b"), ("addhdr", "Wild", "v"), ("inshdr", "0", "Wild", "v"), ("inshdr", "4294967295", "Wild", "v"),
        ("chghdr", "1", "Subject", "v"), ("chghdr", "4294967295", "Subject", ""), ("chghdr", "2147483647", "Wild", "v"), ("replbody", "wild"), ("replbody",),
        ("addrcpt", "<n@x>"), ("addrcptpar", "<n@x>", "NOTIFY=NEVER"), ("delrcpt", "<to1@example.com>"), ("chgfrom", "<f@x>"), ("chgfrom", "<f@x>", "SIZE=1"),
        ("quarantine", "wild")]
RAW = {False: [b"DCa\xff\0v\0b\xfe\0w\0", b"DM{\xc3}\0x\0{\xc3\x28}\0\xff\0", b"H\xff\xfe\0", b"M<\xff@\x80>\0", b"R<\xff>\0", b"L\xff\0\xfe\x80\0", b"U\xff\xff\0",
               b"C\xff\x80\0004\0\x19192.0.2.1\0", b"B\xff\xfe", b"DR\xf0\x9f\0\x80\0i\0\xff\0"],
       True: [b"h\xff\0\xfe\0", b"i\0\0\0\0\xff\0\x80\0", b"m\0\0\0\1\xff\0\x80\0", b"+<\xff>\0", b"-<\xff>\0", b"e<\xff>\0", b"q\xff\0", b"b\xff\x80", b"y550 5.7.1 \xff\0",
              wire.neg(6, [], [])[4:] + b"\0\0\0\0i {\xff} \xc3\0" + b"\0\0\0\1{\xff} {\xff}\0"]}
LONG = {False: [b"Ch\0L\0\0/@\0", b"Ch\0L\0\0/@\0", b"Ch\x004\0\x19@\0", b"Ch\x006\0\x19@\0", b"C@\x004\0\x19192.0.2.1\0", b"H@\0", b"M<@>\0", b"M<a>\0SIZE=@\0", b"R<@>\0", b"L@\0v\0",
                b"LX\0@\0", b"U@\0", b"DM@\0v\0", b"DMi\0@\0", b"B@"],
        True: [b"h@\0v\0", b"hX\0@\0", b"i\0\0\0\0X\0@\0", b"m\0\0\0\1Subject\0@\0", b"+<@>\0", b"-<@>\0", b"e<@>\0", b"2<a>\0@\0", b"q@\0", b"b@", b"y550 5.7.1 @\0", b"y550-5.7.1 @\r\n550 5.7.1 @\0",
               b"y@\0", b"y550 5.@.1 x\0", wire.neg(6, [], [])[4:] + b"\0\0\0\0i @\0", wire.neg(6, [], [])[4:] + b"@"]}
LENGTHS = [0, 0, 1, 2, 3, 4, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x01000000, 65536, 1000000]


def some(r, kid):
    """a packet as it should look"""
    x = r.random()
    if x < .08:
        return wire.neg(r.choice([0, 1, 2, 6, 7, 0x7fffffff, 0xffffffff]), [a for a, _ in wire.ACTIONS if r.random() < .5], [a for a, _ in wire.STEPS if r.random() < .5],
                        {"connect": ["i", "{x}"], "eom": ["y"]} if kid and r.random() < .5 else None)
    if x < .2 and not kid:
        st = r.choice(["connect", "helo", "mail", "rcpt", "data", "header", "eoh", "body", "eom", "unknown", "abort", "quit"])
        return wire.cmd("macro", st, s=[("i", "1"), ("{rcpt_addr}", "x"), ("{", "y"), ("{}", "z")][:r.randint(0, 4)])
    if x < .23:                                  # bytes that are no characters
        return wire.frame(r.choice(RAW[kid]))
    if x < .28:                                  # long ones
        n = r.choice([100, 107, 108, 109, 200, 999, 4096, 65535, 200000])
        return wire.frame(r.choice(LONG[kid]).replace(b"@", r.choice([b"x", b"\xe9", b"0", b"{", b"4"]) * n))
    c = r.choice(REPS if kid else CMDS)
    return (wire.rep if kid else wire.cmd)(*c)


def data(r, kid):
    """one write"""
    x = r.random()
    d = some(r, kid)
    body = d[4:]
    if x < .3:
        return d
    if x < .4:                                   # the payload is cut, or longer
        body = body[:r.randint(0, len(body))] if r.random() < .7 else body + bytes(r.choices(b"\0\0aB4U{}\xff", k=r.randint(1, 9)))
        return wire.frame(body)
    if x < .5:                                   # one byte differs
        if body:
            i = r.randrange(len(body))
            body = body[:i] + bytes([r.choice([0, 0xff, 0x7f, 0x80, r.randrange(256)])]) + body[i + 1:]
        return wire.frame(body)
    if x < .58:                                  # only a letter
        return wire.frame(bytes([r.randrange(256)]))
    if x < .66:                                  # a letter and junk
        return wire.frame(bytes([r.choice(b"ABCDEHLMNOQRTUK" if not kid else b"+-24abcdefhilmpqrstyO")]) +
                          bytes(r.choices(b"\0\0\0aB46UL{}C\xff\x80", k=r.randint(0, 12))))
    if x < .85:                                  # a length that is not that of the content
        return struct.pack(">I", r.choice(LENGTHS + [len(body) - 1, len(body) + 1])) + body + (b"".join(some(r, kid) for _ in range(r.randint(0, 2))))
    if x < .93:                                  # packets that run into each other
        return b"".join(some(r, kid) for _ in range(r.randint(2, 4)))
    if x < .97:
        return wire.frame(r.choice(MALFORMED)) + bytes(r.choices(b"4UL6\0\0", k=r.randint(0, 6)))
    return bytes(r.randrange(256) for _ in range(r.randint(1, 40)))


def rage(g, s):
    """after this nothing is expected of the session but that it ends with its MTA's connection"""
    r, w = g.r, s.w
    s.wild = True
    for _ in range(r.randint(1, 10)):
        who = [k[1] for k, p in w.peers.items() if k[0] == s.sid and not p.eof]
        if not who or "mta" not in who:
            break
        x = r.random()
        if x < .05:
            s.tick(r.choice([5, 10, 300]))
            continue
        p = r.choice(who + ["mta"])
        if x < .12 and p != "mta":
            s.wildly(lambda: w.half_close((s.sid, p)))
            continue
        d = data(r, p != "mta")
        s.wildly(lambda: w.send((s.sid, p), d))
    key = (s.sid, "mta")
    if key in w.peers and not w.peers[key].eof:
        if r.random() < .5:
            s.wildly(lambda: w.half_close(key))
        else:
            s.wildly(lambda: w.close(key))
    s.closed = True
