"""Behaviours of the specification (spec/tours/*.json.gz, made by tools/tours.py from spec/MilterManager.tla) replayed
into the real daemon.  They are stimuli only: what the daemon does with them is recorded and judged by TLC like any
other session (spec/TraceCheck.tla)."""
import functools, gzip, json, os, random, time
import driver, mmbuild, world

DIR = os.path.join(mmbuild.VERIF, "spec", "tours")
SIZE = 25


@functools.lru_cache(None)
def load(inst):
    with gzip.open(os.path.join(DIR, inst + ".json.gz")) as f:
        return json.loads(f.read())


@functools.lru_cache(None)
def chunks(inst, seed):
    """every tour once: [(group, [tour numbers])] in an order given by seed"""
    r = random.Random("%s/%s" % (seed, inst))
    out = []
    for g, x in enumerate(load(inst)["groups"]):
        ix = list(range(len(x["tours"])))
        r.shuffle(ix)
        out += [(g, ix[a:a + SIZE]) for a in range(0, len(ix), SIZE)]
    r.shuffle(out)
    return out


def gather(fam, inst, seed, nses, bld, until):
    base, k = seed.split("#") if "#" in seed else (seed, "0")
    cs = chunks(inst, base)
    g, ix = cs[int(k) % len(cs)]
    d = load(inst)
    grp = d["groups"][g]
    specs = [{"name": "m%d" % (i + 1), "eval": e, "fb": f} for i, (e, f) in enumerate(zip(grp["eval"], grp["fb"]))]
    st = driver.Setup(specs, chunk=1000)
    out, notes = [], []
    w = st.world(bld)
    try:
        base = w.nfds()
        for n, t in enumerate(ix[:nses]):
            if until and time.time() > until:
                break
            s = driver.Session(w, st, n + 1, "%s/%s/%d.%d" % (seed, fam, g, t))
            died = play(s, grp["up"], [d["events"][e] for e in grp["tours"][t]])
            out.append(s.trace())
            if died:
                notes.append(("died", w.logtail(1500)))
                break
        else:
            w.settle()
            n = w.nfds()
            for _ in range(20):
                if n <= base:
                    break
                time.sleep(.05)
                n = w.nfds()
            if n > base:
                notes.append(("fds", "%d descriptors before the first session, %d after the last one" % (base, n)))
    finally:
        w.stop()
    return out, notes


def play(s, up, evs):
    try:
        for i, on in enumerate(up):
            if not on:
                s.listen(i, False)
        s.up0 = list(s.up)
        s.ev.clear()
        for e in evs:
            if not one(s, e):
                break
        if not s.closed:
            s.mta_close()
        s.finish(True)
    except world.DaemonDied:
        return True
    return False


def one(s, e):
    """False: the daemon went another way (which the specification has already seen)"""
    t, p = e["t"], e.get("p")
    if t == "tick":
        s.tick(e["d"])
    elif t == "listen":
        s.listen(e["i"] - 1, e["on"])
    elif t in ("kid", "kidclose"):
        i = e["i"] - 1
        if not s.usable(i):
            return False
        if t == "kidclose":
            s.kid_close(i)
        elif p["k"] == "neg":
            o = {k: [v for n, v in p["s"] if n == k] for k in "vap"}
            s.kid_neg(i, int(o["v"][0]), [x for x in driver.ACTS if x in o["a"]], sorted(o["p"]))
        else:
            if s.awaiting[i] is None:
                s.unsol = True
            s.kid(i, p["k"], *p["a"])
    elif s.closed:
        return False
    elif t == "mtaclose":
        s.mta_close()
    elif p["k"] == "neg":
        o = {k: [v for n, v in p["s"] if n == k] for k in "vap"}
        s.mta_neg(int(o["v"][0]), [x for x in driver.ACTS if x in o["a"]], sorted(o["p"]))
    elif p["k"] == "abort" and s.out:
        s.mta_abort_mid()
    elif s.out and p["k"] != "quit":
        return False
    else:
        s.mta(p["k"], *p["a"])
    return True
