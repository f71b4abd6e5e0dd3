"""The closed models: TLC explores them completely and checks, on every reachable state, what must never happen -
stated a second time, without the transition relation the conformance checks use (thorough tier)."""
import glob, os, shutil, subprocess, tempfile
import mmbuild

SPEC = os.path.join(mmbuild.VERIF, "spec")
CP = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
INST = {"M01": ["Verdicts", "Verdicts3"], "M02": ["Failures", "Cuts", "Steps", "Connecting"], "M03": ["Verdicts"], "M04": ["Evaluated"],
        "M05": ["Failures", "Connecting"], "M06": ["Verdicts3", "Content", "Steps"], "M07": ["Content", "Cuts"], "M08": ["Content", "Changes"],
        "M09": ["Changes"], "M10": ["Content"], "M11": ["Cuts", "Content"], "M12": ["Cuts", "Connecting"], "M14": ["Steps"], "M17": ["Changes"],
        "C01": ["Filter"], "C02": ["Filter"], "C03": ["Filter"], "C04": ["Filter"], "D01": ["Life"], "D02": ["Life"], "D03": ["Life"]}


def start(inst):
    d = tempfile.mkdtemp(prefix="mmmc")
    out = open(os.path.join(d, "out"), "w")
    p = subprocess.Popen(["java", "-Xmx3g", "-XX:+UseSerialGC", "-cp", CP, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", "1", "-config", inst + ".cfg",
                          "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", inst + ".tla"], cwd=os.path.join(SPEC, "mc"), stdin=subprocess.DEVNULL,
                         stdout=out, stderr=subprocess.STDOUT)
    return inst, d, p


def finish(job, timeout):
    inst, d, p = job
    r = {"instance": "spec/mc/%s.tla" % inst}
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        r["result"] = "not finished"
    t = open(os.path.join(d, "out")).read()
    shutil.rmtree(d, ignore_errors=True)
    for l in t.splitlines():
        if "states generated" in l and "distinct states found" in l:
            r["transitions"], r["states"] = (int(x.split()[0].replace(",", "")) for x in l.split(": ", 1)[-1].split(", ")[:2]) if "Progress" not in l \
                else (r.get("transitions", 0), r.get("states", 0))
        if l.startswith("The depth of"):
            r["depth"] = int(l.split()[-1].rstrip("."))
    if "result" not in r:
        r["result"] = "no error" if "No error has been found" in t else "error"
        if r["result"] == "error":
            r["output"] = t[-3000:]
    return r
