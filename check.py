#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough     decide one property on /repo's working tree
   check.py PROPERTY --replay FILE      run a reported violation again
   check.py --setup                     build everything the checks need"""
import collections, importlib, json, multiprocessing, os, random, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import families, mmbuild, model, sessions

OUT = os.path.join(HERE, ".out")
NPROC = min(8, os.cpu_count() or 1)
LIMIT = {"quick": 60.0, "thorough": 780.0}     # seconds spent on exploring
ROUNDS = {"quick": 4, "thorough": 40}


def known():
    """(property, signature) pairs of listed findings"""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                out.append(json.loads(l[9:]))
    return out


MODULE = {"C": "client", "K03": "config", "D": "service"}


def engine(prop):
    m = MODULE.get(prop) or MODULE.get(prop[0])
    return importlib.import_module(m) if m else None


def plan(prop, tier, seed):
    """jobs: list of lists of (family, seed, sessions per daemon)"""
    if engine(prop):
        return engine(prop).plan(prop, tier, seed, NPROC, ROUNDS[tier], {"quick": 6, "thorough": 10}[tier])
    fams, _, _ = families.P[prop]
    r = random.Random("%s/%s/%s" % (prop, tier, seed))
    names = [f for f, w in fams.items() for _ in range(w)]
    per = {"quick": 6, "thorough": 10}[tier]
    jobs = []
    tours = collections.Counter()
    for rnd in range(ROUNDS[tier]):
        batch = []
        n = NPROC * per
        k = 0
        while len(batch) < n:
            order = names[:]
            r.shuffle(order)
            for f in order:
                prof = families.F[f]
                big = max(prof.get("tok", (4,))) > 100
                ns = (2 if big else 25) // (prof.get("multi", 1) if not big else 1) or 1
                if "tour" in prof:
                    batch.append((f, "%s#%d" % (seed, tours[f]), ns))
                    tours[f] += 1
                else:
                    batch.append((f, "%s.%d.%d" % (seed, rnd, k), ns))
                    k += 1
        batch = batch[:max(n, len(names))]
        for i in range(NPROC):
            jobs.append(batch[i::NPROC])
    return jobs


def run(prop, tier, seed):
    t0 = time.time()
    bld = mmbuild.build(families.FLAVOR.get(prop, "plain"))
    eng = engine(prop) or sessions
    t1 = time.time()
    until = t1 + LIMIT[tier]
    tot = dict(traces=0, events=0, states=0, setups=0, other=0)
    shapes, fams, kinds, samples, bad, err = set(), collections.Counter(), collections.Counter(), [], [], []
    pool = multiprocessing.get_context("fork").Pool(NPROC)
    try:
        for r in pool.imap_unordered(eng.shard, [(prop, j, bld, until) for j in plan(prop, tier, seed)]):
            for k in tot:
                tot[k] += r[k]
            shapes |= r["shapes"]
            fams.update(r["fams"])
            kinds.update(r["kinds"])
            err += r["err"]
            if r["sample"] and len(samples) < 3:
                samples.append(r["sample"])
            bad += r["bad"]
            if bad and (len(bad) > 3 or time.time() > until):
                break
            if time.time() > until + 60:
                break
    finally:
        pool.terminate()
        pool.join()
    found, notes = [], []
    for b in bad[:6]:
        again = None
        for _ in range(2):
            again = eng.confirm(prop, b, bld)
            if again:
                break
        if again:
            found.append(again)
            break
        notes.append("not confirmed when run again: " + b["what"][:400])
    return dict(found=found, notes=notes, tot=tot, shapes=shapes, fams=fams, kinds=kinds, samples=samples, err=err,
                build_s=t1 - t0)


def evidence(prop, tier, seed, level, cov, wall, violations, assumptions):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 1),
                   "violations": violations, "assumptions": assumptions}, f, indent=1)


ASSUME = ["the MTA side keeps the milter protocol (waits for each reply it has not waived, DATA only after an accepted recipient)",
          "TLC, the kernel's socket wake-up order and the LD_PRELOAD clock shim are trusted"]


def violation(prop, what, replay):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%d.json" % (prop, os.getpid()))
    with open(path, "w") as f:
        json.dump(replay, f, indent=1)
    print("  " + what)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return 1


def main():
    if sys.argv[1] == "--setup":
        for f in ["plain"] + sorted(set(families.FLAVOR.values())):
            print(mmbuild.build(f))
        return 0
    prop = sys.argv[1]
    if sys.argv[2] == "--replay":
        b = json.load(open(sys.argv[3]))
        if "module" in b:
            return importlib.import_module(b["module"]).replay(prop, b)
        again = sessions.confirm(prop, b, mmbuild.build(families.FLAVOR.get(prop, "plain")))
        print("reproduced: " + again["what"] if again else "not reproduced")
        return 1 if again else 0
    tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    models = [model.start(i) for i in model.INST.get(prop, ())] if tier == "thorough" else []
    try:
        r = run(prop, tier, seed)
    finally:
        models = [model.finish(m, max(1, 840 - (time.time() - t0))) for m in models]
    for m in models:
        if m["result"] == "error":
            r["err"].append("the closed model %s\n%s" % (m["instance"], m["output"]))
    if r["err"]:
        print("harness trouble in %d shards:\n%s" % (len(r["err"]), r["err"][0]))
    for n in r["notes"]:
        print("note: " + n)
    ok = r["tot"]["traces"]
    cov = {"states": r["tot"]["states"], "transitions": r["tot"]["events"], "traces_validated_against_impl": ok,
           "samples": r["samples"], "distinct_nontrivial": len(r["shapes"]),
           "rule": getattr(engine(prop), "RULE", "a trace is one whole session of the real process (manager daemon, or filter linked to the library) with seeded stimuli; "
                           "distinct = different sequence of stimulus kinds, parties, argument counts and configuration"),
           "daemons": r["tot"]["setups"], "families": dict(r["fams"]), "stimuli": dict(r["kinds"].most_common()),
           "disagreements_about_other_properties": r["tot"]["other"], "unconfirmed": r["notes"], "harness_trouble": len(r["err"]),
           "closed_models": models,
           "build_s": round(r["build_s"], 1)}
    evidence(prop, tier, seed, "model_checking", cov, time.time() - t0, len(r["found"]), ASSUME)
    if r["found"]:
        b = r["found"][0]
        return violation(prop, "%s: %s" % (b["fam"], b["what"]), b)
    if r["err"] and not ok:
        print("no trace could be gathered")
        return 2
    print("%s %s: %d sessions of the real process (%d steps, %d distinct) agree with the specification, %.0f s" % (
        prop, tier, ok, r["tot"]["events"], len(r["shapes"]), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
