#!/usr/bin/env python3
"""tours.py [INSTANCE...]   behaviours of the specification for the real daemon: TLC explores an instance of
spec/MilterManager.tla (spec/mc/*.tla) completely, every transition it takes is printed, and walks from the initial
states are put together that take every transition at least once.  -> spec/tours/INSTANCE.json.gz (committed)"""
import collections, glob, gzip, json, os, random, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")
MC = os.path.join(SPEC, "mc")
CP = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))


def run(cfgtext, inst, d, timeout, out, workers=1):
    cfg = os.path.join(d, inst + ".cfg")
    open(cfg, "w").write(cfgtext)
    with open(out, "w") as f:
        subprocess.run(["java", "-Xmx6g", "-XX:+UseParallelGC", "-cp", CP, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers),
                        "-config", cfg, "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", inst + ".tla"], cwd=MC, stdin=subprocess.DEVNULL,
                       stdout=f, stderr=subprocess.STDOUT, timeout=timeout)


def graph(inst):
    """-> {(ev, fb, up): (root, edges)}"""
    d = tempfile.mkdtemp(prefix="mmtour")
    try:
        t = open(os.path.join(MC, inst + ".cfg")).read()
        t = t.replace("VIEW View", "VIEW Stimuli\nACTION_CONSTRAINT Edge").replace("Watch = TRUE", "Watch = FALSE")
        t = re.sub(r"^(INVARIANT|ALIAS).*\n", "", t, flags=re.M)
        out = os.path.join(d, "out")
        run(t, inst, d, 1800, out)
        adj, roots, ok = collections.defaultdict(dict), {}, False
        for l in open(out):
            l = l.strip()
            if "No error has been found" in l:
                ok = True
            if not l.startswith('"@@E '):
                continue
            l = json.loads(l)
            _, a, b, j = l.split(" ", 3)
            x = json.loads(j)
            e = json.dumps(x["e"], sort_keys=True)
            if (e not in adj[a]):
                adj[a][e] = (b, x["end"], x["at"])
            if x["new"]:
                roots.setdefault(json.dumps([x["ev"], x["fb"], x["up"]]), set()).add(a)
        if not ok:
            raise SystemExit(open(out).read()[-3000:])
        for k, v in roots.items():
            assert len(v) == 1, (k, len(v))
        return adj, {k: v.pop() for k, v in roots.items()}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tours(adj, root, rng):
    """walks from root that take every transition reachable from it; greedy: go where something is left to take"""
    todo = {}
    seen, stack = {root}, [root]
    while stack:
        n = stack.pop()
        todo[n] = set(adj.get(n, ()))
        for b, _, _ in adj.get(n, {}).values():
            if b not in seen:
                seen.add(b)
                stack.append(b)
    # distance to the nearest transition not taken yet, computed again when it becomes wrong
    pred = collections.defaultdict(set)
    for n in todo:
        for b, _, _ in adj.get(n, {}).values():
            pred[b].add(n)

    def distances():
        d = {n: 0 for n in todo if todo[n]}
        q = collections.deque(d)
        while q:
            n = q.popleft()
            for p in pred[n]:
                if p not in d:
                    d[p] = d[n] + 1
                    q.append(p)
        return d
    left = sum(len(x) for x in todo.values())
    total = left
    dist, stale = distances(), 0
    out = []
    while left:
        n, path, gain = root, [], 0
        while len(path) < 200:
            es = adj.get(n, {})
            if not es:
                break
            if todo[n]:
                e = rng.choice(sorted(todo[n]))
                todo[n].discard(e)
                left -= 1
                gain += 1
            else:
                c = [(dist[b], e) for e, (b, _, _) in es.items() if b in dist]
                if not c:
                    break
                e = min(c)[1]
            path.append(e)
            n = es[e][0]
        stale += 1
        if gain == 0 or stale > 200 + len(out) // 4:
            dist, stale = distances(), 0
            if gain == 0:
                assert root in dist
                continue
        out.append(path)
    return out, total


def main():
    os.makedirs(os.path.join(SPEC, "tours"), exist_ok=True)
    for inst in sys.argv[1:] or sorted(x[:-4] for x in os.listdir(MC) if x.endswith(".tla")):
        adj, roots = graph(inst)
        evs, groups, n, tot = {}, [], 0, 0
        for k in sorted(roots):
            ts, t = tours(adj, roots[k], random.Random(inst + k))
            tot += t
            n += len(ts)
            c = json.loads(k)
            groups.append({"eval": c[0], "fb": c[1], "up": c[2],
                           "tours": [[evs.setdefault(e, len(evs)) for e in p] for p in ts]})
        d = {"instance": inst, "transitions": tot, "tours": n, "events": [json.loads(e) for e in evs], "groups": groups}
        f = os.path.join(SPEC, "tours", inst + ".json.gz")
        with open(f, "wb") as fp, gzip.GzipFile(fileobj=fp, mode="wb", mtime=0, filename="", compresslevel=9) as z:
            z.write(json.dumps(d, separators=(",", ":")).encode())
        print(inst, "states", len(adj), "transitions", tot, "tours", n, "steps", sum(len(p) for g in groups for p in g["tours"]), "bytes", os.path.getsize(f), flush=True)


if __name__ == "__main__":
    main()
