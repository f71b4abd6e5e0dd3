"""Gathers recorded sessions of the real daemon and has TLC judge them."""
import collections, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time, traceback
import driver, families, mmbuild, reload, tour, wire, world

SPEC = os.path.join(mmbuild.VERIF, "spec")
JAVA = os.environ.get("VERIF_JAVA_OPTS", "-Xmx1500m -Xss32m -XX:+UseSerialGC -XX:TieredStopAtLevel=4")


def death(w):
    log = w.logtail(30000)
    i = log.find("ERROR: AddressSanitizer")
    return log[-1500:] if i < 0 else log[i:i + 1500]


def gather(seed, fam, nses, bld, until=None, only=None):
    """one daemon, nses sessions (or rounds of `multi` sessions)"""
    prof = dict(families.F[fam])
    if "tour" in prof:
        return tour.gather(fam, prof["tour"], seed, nses, bld, until)
    r = random.Random("%s/%s" % (seed, fam))
    multi = prof.pop("multi", 1)
    rel = prof.pop("reload", None)
    workers = prof.pop("workers", 0)
    g = driver.Gen(r, **prof)
    if rel:
        return reload.gather(r, g, prof, rel, multi, nses, bld, "%s/%s" % (seed, fam), until)
    st = g.setup()
    st.workers = workers
    out, notes = [], []
    w = st.world(bld)
    try:
        base = w.nfds()
        for k in range(nses):
            if until and time.time() > until:
                break
            if multi == 1:
                s, died = g.session(w, st, k + 1, "%s/%s/%d" % (seed, fam, k))
                ss = [s]
            else:
                hub = driver.Hub(random.Random(r.random()))
                ss, died = hub.run(w, st, [(k * 100 + m + 1, driver.Gen(random.Random(r.random()), **prof),
                                            "%s/%s/%d.%d" % (seed, fam, k, m)) for m in range(multi)])
            out += [s.trace() for s in ss]
            if died:
                notes.append(("died", death(w)))
                break
        else:
            w.settle()
            n = w.nfds()
            for _ in range(20):
                if n <= base:
                    break
                time.sleep(.05)
                n = w.nfds()
            if n > base:
                notes.append(("fds", "%d descriptors before the first session, %d after the last one" % (base, n)))
    finally:
        w.stop()
    return out, notes


def tlc(traces, spec="TraceCheck", workers=1, timeout=600):
    """-> mismatches, states"""
    d = tempfile.mkdtemp(prefix="mmt")
    try:
        f = os.path.join(d, "t.ndjson")
        with open(f, "w") as fp:
            for t in traces:
                fp.write(json.dumps(t) + "\n")
        cmd = ["java"] + JAVA.split() + ["-cp", CLASSPATH, "tlc2.TLC", "-workers", str(workers), "-config", spec + ".cfg",
                                         "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", spec + ".tla"]
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, TRACES=f), stdin=subprocess.DEVNULL,
                           capture_output=True, text=True, timeout=timeout)
        mm = []
        for l in p.stdout.splitlines():
            l = l.strip()
            if "@@MISMATCH" in l:
                l = json.loads(l) if l.startswith('"') else l
                mm.append(json.loads(l[len("@@MISMATCH "):]))
        if "Model checking completed. No error" not in p.stdout:
            raise world.HarnessError("TLC failed\n" + p.stdout[-3000:] + p.stderr[-2000:])
        states = 0
        for l in p.stdout.splitlines():
            if "distinct states found" in l and "states generated" in l:
                states = int(l.split("states generated")[1].split()[1].replace(",", "")) if False else int(l.split(", ")[1].split()[0].replace(",", ""))
        return mm, states
    finally:
        shutil.rmtree(d, ignore_errors=True)


CLASSPATH = "/opt/veriftools/tla/*" if not os.path.exists("/opt/veriftools/tla/tla2tools.jar") else \
    ":".join(sorted(os.path.join("/opt/veriftools/tla", x) for x in os.listdir("/opt/veriftools/tla") if x.endswith(".jar")))


def shape(t):
    """the stimuli of a trace without its texts"""
    h = []
    for e in t["ev"]:
        ps = [e["p"]] if "p" in e else e.get("ps", [])
        h.append((e["t"], e.get("i"), e.get("d"), tuple((p["k"], len(p["a"]), len(p["s"])) for p in ps)))
    return hashlib.md5(repr((t["cfg"]["n"], t["cfg"]["eval"], t["cfg"]["fb"], h)).encode()).hexdigest()


def relevant(prop, tr, m):
    fams, cats, cond = families.P[prop]
    return bool(families.kinds(m) & cats) and (cond is None or cond(tr, m) or bool(families.kinds(m) & {"died"}))


def shard(job):
    """(prop, seed, [(fam, setup seed, nses)], bld, until) -> summary dict"""
    prop, jobs, bld, until = job
    res = dict(traces=0, events=0, states=0, setups=0, shapes=set(), bad=[], other=0, sample=None, err=[], fams=collections.Counter(), kinds=collections.Counter())
    trs, meta = [], []
    for fam, seed, nses in jobs:
        if until and time.time() > until:
            break
        try:
            o, notes = gather(seed, fam, nses, bld, until)
        except (world.HarnessError, world.DaemonDied) as x:
            # the daemon did not start, spins, or died outside a session
            res["bad"].append(dict(fam=fam, seed=seed, nses=nses, cats=["stuck"], what=str(x)[-1500:], trace=None, step=0))
            continue
        except Exception:
            res["err"].append(traceback.format_exc()[-1500:])
            continue
        res["setups"] += 1
        for kind, what in notes:
            if kind in families.P[prop][1] and (kind == "fds" or not any(p["k"] == "DIED" for t in o for e in t["ev"] for p in e["obs"]["mta"])):
                res["bad"].append(dict(fam=fam, seed=seed, nses=nses, cats=[kind], what=what, trace=None, step=0))
        trs += o
        meta += [(fam, seed, nses)] * len(o)
    if trs:
        mm, states = tlc(trs)
        res["states"] = states
        for m in mm:
            t = trs[m["trace"] - 1]
            fam, seed, nses = meta[m["trace"] - 1]
            if relevant(prop, t, m):
                res["bad"].append(dict(fam=fam, seed=seed, nses=nses, cats=sorted(families.kinds(m)), trace=t, step=m["step"], mismatch=m,
                                       what=describe(t, m)))
            else:
                res["other"] += 1
        bad = {m["trace"] for m in mm}
        for i, t in enumerate(trs):
            if i + 1 not in bad:
                res["traces"] += 1
            res["events"] += len(t["ev"])
            res["shapes"].add(shape(t))
            res["fams"][meta[i][0]] += 1
            for e in t["ev"]:
                res["kinds"][e["t"] + ":" + str(families.evkind(e) or "")] += 1
        good = [t for i, t in enumerate(trs) if i + 1 not in bad and len(t["ev"]) > 8]
        if good:
            res["sample"] = brief(min(good, key=lambda t: len(t["ev"])))
    return res


def fp(p):
    if p["k"] == "neg":
        return "neg(%s)" % " ".join("%s=%s" % (n, v) for n, v in p["s"])
    return p["k"] + ("(%s)" % ", ".join(p["a"]) if p["a"] else "") + ("{%s}" % ", ".join("%s=%s" % (n, v) for n, v in p["s"]) if p["s"] else "")


def fe(e):
    who = "MTA" if e["t"].startswith("mta") else "milter %s" % e.get("i", "")
    if "p" in e:
        return "%s: %s" % (who, fp(e["p"]))
    if "ps" in e:
        return "%s: %s" % (who, " + ".join(map(fp, e["ps"])))
    return "%s%s%s%s" % (e["t"], " milter %d" % e["i"] if "i" in e else "", " %gs" % e["d"] if "d" in e else "", " %s" % e["on"] if "on" in e else "")


def fo(o):
    l = []
    if o["mta"]:
        l.append("MTA<-[%s]" % ", ".join(map(fp, o["mta"])))
    for i, q in enumerate(o["kids"]):
        if q:
            l.append("%d<-[%s]" % (i + 1, ", ".join(map(fp, q))))
    return " ".join(l)


def brief(t, last=None):
    ev = t["ev"][-last:] if last else t["ev"]
    return {"tag": t.get("tag"), "eval": t["cfg"]["eval"], "fallback": t["cfg"]["fb"],
            "steps": ["%s => %s" % (fe(e), fo(e["obs"])) for e in ev][:60]}


def describe(t, m):
    return "after %d steps, on [%s]: got %s, expected MTA %s milters %s (differs: %s)" % (
        m["step"] - 1, fe(m["event"]), fo(m["obs"]), json.dumps(m["exp"]["mta"])[:300],
        json.dumps([[(p["k"], p["a"]) for p in q] for q in m["exp"]["kids"]])[:400], ", ".join(sorted(families.kinds(m))))


def confirm(prop, bad, bld):
    """run the same daemon, sessions and choices again from scratch"""
    r = shard((prop, [(bad["fam"], bad["seed"], bad["nses"])], bld, None))
    for b in r["bad"]:
        if b["fam"] == bad["fam"] and set(b["cats"]) & set(bad["cats"]):
            return b
    return None
