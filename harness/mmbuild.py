"""Build milter-manager from /repo's *current working tree* into a cache
directory of /verif (git-ignored), without touching /repo and without relying
on /repo/_build.  One cache entry per content hash of the sources."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".build")
RUBYINC = ["-I/usr/lib/x86_64-linux-gnu/ruby/vendor_ruby/3.2.0",
           "-I/usr/include/x86_64-linux-gnu/ruby-3.2.0",
           "-I/usr/include/ruby-3.2.0"]
GLIB = ["-I/usr/include/glib-2.0",
        "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include", "-pthread"]
GLIBL = ["-lgobject-2.0", "-Wl,--export-dynamic", "-lgmodule-2.0",
         "-lglib-2.0", "-lgthread-2.0", "-pthread"]
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")


class BuildError(Exception):
    pass


def _sources():
    out = []
    for top in ("milter", "src", "libmilter", "module", "binding/ruby/ext",
                "build", "tool"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".in", ".am")) and \
                        not f.startswith("Makefile.in"):
                    out.append(os.path.join(root, f))
    out.append(os.path.join(REPO, "configure.ac"))
    return out


def source_hash(extra=""):
    h = hashlib.sha256()
    for f in _sources() + [__file__, os.path.join(VERIF, "build/config.h")] + \
            sorted(glob.glob(os.path.join(VERIF, "harness/c/*"))):
        h.update(os.path.relpath(f, "/").encode())
        with open(f, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    h.update(extra.encode())
    return h.hexdigest()[:16]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def _make_headers_list(libdir, prefix):
    """Header lists scanned by glib-mkenums, taken from the Makefile.am."""
    text = open(os.path.join(REPO, "milter", libdir, "Makefile.am")).read()
    text = text.replace("\\\n", " ")
    var = {}
    for m in re.finditer(r"^([A-Za-z_0-9]+)[ \t]*=[ \t]*(.*)$", text, re.M):
        var[m.group(1)] = m.group(2)
    src = var.get("enum_sources_h", "")
    for _ in range(5):
        src = re.sub(r"\$[({]([A-Za-z_0-9]+)[)}]",
                     lambda m: var.get(m.group(1), ""), src)
    words = [w for w in src.split() if w.endswith(".h")]
    if not words:
        raise BuildError("no enum headers in " + libdir)
    return words


def build(flavor="plain", quiet=True):
    """Returns the build directory (dict of paths)."""
    os.makedirs(CACHE, exist_ok=True)
    key = source_hash(flavor)
    bld = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(bld, "ok")):
            for d in glob.glob(os.path.join(CACHE, "*")):
                if os.path.isdir(d) and d != bld and \
                        time.time() - os.path.getmtime(d) > 3600:
                    shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(bld, ignore_errors=True)
            t0 = time.time()
            _build(bld, flavor)
            if flavor == "asan":
                open(os.path.join(bld, "asan"), "w").write(_run(["gcc", "-print-file-name=libasan.so"]).strip())
            open(os.path.join(bld, "ok"), "w").write("%.1f\n" % (time.time() - t0))
    return bld


def _build(bld, flavor):
    os.makedirs(bld)
    for d in ("lib", "bin", "ext", "module", "obj"):
        os.makedirs(os.path.join(bld, d))
    gen = os.path.join(bld, "gen")
    os.makedirs(gen)
    shutil.copy(os.path.join(VERIF, "build/config.h"), os.path.join(gen, "config.h"))
    # version header
    conf = open(os.path.join(REPO, "configure.ac")).read()
    ver = ".".join((re.findall(
        r"m4_define\(\[milter_manager_version_%s\], *\[(\d+)\]" % x, conf)
        or ["0"])[0] for x in ("major", "minor", "micro"))
    parts = (ver.split(".") + ["0", "0"])[:3]
    os.makedirs(os.path.join(gen, "milter/core"))
    vt = open(os.path.join(REPO, "milter/core/milter-version.h.in")).read()
    sub = {"MILTER_MANAGER_VERSION": ver, "VERSION": ver,
           "PACKAGE_VERSION": ver,
           "MILTER_MANAGER_VERSION_MAJOR": parts[0],
           "MILTER_MANAGER_VERSION_MINOR": parts[1],
           "MILTER_MANAGER_VERSION_MICRO": parts[2],
           "MILTER_VERSION_MAJOR": parts[0],
           "MILTER_VERSION_MINOR": parts[1],
           "MILTER_VERSION_MICRO": parts[2]}
    vt = re.sub(r"@([A-Za-z_]+)@", lambda m: sub.get(m.group(1), "0"), vt)
    open(os.path.join(gen, "milter/core/milter-version.h"), "w").write(vt)

    opt = ["-g", "-O1", "-w", "-fPIC"]
    extra_link = []
    if flavor == "asan":
        opt += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        extra_link = ["-fsanitize=address"]
    base = ["-DHAVE_CONFIG_H", "-I" + gen, "-I" + REPO]
    manager_defs = [
        '-DCONFIGURATION_MODULE_DIR="%s/module"' % bld,
        '-DRUBY_BINDINGS_EXT_DIR="%s/ext"' % bld,
        '-DRUBY_BINDINGS_LIB_DIR="%s/binding/ruby/lib"' % REPO,
        '-DCONFIG_DIR="%s/etc"' % bld,
        '-DCONFIG_FILE_NAME="milter-manager.conf"',
        '-DCUSTOM_CONFIG_FILE_NAME="milter-manager.custom.conf"',
        '-DMILTER_MANAGER_PACKAGE_PLATFORM="debian"',
        '-DMILTER_MANAGER_PACKAGE_OPTIONS=NULL',
        '-DMILTER_MANAGER_DEFAULT_EFFECTIVE_USER=NULL',
        '-DMILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP=NULL',
        '-DMILTER_MANAGER_DEFAULT_SOCKET_GROUP=NULL',
        '-DMILTER_MANAGER_DEFAULT_CONNECTION_SPEC="inet:10025@[127.0.0.1]"',
        '-DMILTER_MANAGER_DEFAULT_PID_FILE=NULL']
    common = ['-DLOCALEDIR="/usr/local/share/locale"', '-DPREFIX="/usr/local"']

    # enum types
    def enum(libdir, stem):
        d = os.path.join(gen, "milter", libdir)
        os.makedirs(d, exist_ok=True)
        hs = _make_headers_list(libdir, stem)
        src = os.path.join(REPO, "milter", libdir)
        tmpl = open(os.path.join(REPO, "build/enum-types-template.c")).read()
        tc = os.path.join(d, stem + "-template.c")
        open(tc, "w").write(tmpl.replace("@enum_types_header@", stem + ".h"))
        c = _run(["glib-mkenums", "--template", tc] + hs, cwd=src)
        h = _run(["glib-mkenums", "--template",
                  os.path.join(REPO, "build/enum-types-template.h")] + hs, cwd=src)
        os.unlink(tc)
        open(os.path.join(d, stem + ".c"), "w").write(c)
        open(os.path.join(d, stem + ".h"), "w").write(h)
        return os.path.join(d, stem + ".c")

    libs = {}
    jobs = []      # (group, src, flags)

    def add(group, srcs, flags):
        for s in srcs:
            jobs.append((group, s, flags))

    def csrc(d):
        return sorted(glob.glob(os.path.join(REPO, d, "*.c")))

    with cf.ThreadPoolExecutor(8) as ex:
        fe = {l: ex.submit(enum, l, s) for l, s in
              (("core", "milter-enum-types"), ("client", "milter-client-enum-types"),
               ("server", "milter-server-enum-types"),
               ("manager", "milter-manager-enum-types"))}
        enums = {l: f.result() for l, f in fe.items()}
    for l, dom in (("core", "milter-core"), ("client", "milter-client"),
                   ("server", "milter-server"), ("manager", "milter-manager")):
        fl = base + ["-I%s/milter/%s" % (gen, l), "-I%s/milter/%s" % (REPO, l)] + \
            common + ['-DMILTER_LOG_DOMAIN="%s"' % dom] + GLIB + \
            (["-DEV_COMPAT3=0"] if l == "core" else []) + \
            (manager_defs if l == "manager" else [])
        add(l, [enums[l]] + csrc("milter/" + l), fl)
    add("libmilter", csrc("libmilter"),
        base + ["-I%s/libmilter" % REPO, '-DMILTER_LOG_DOMAIN="libmilter"'] + GLIB)
    for x in ("core", "client", "server", "manager"):
        # some bindings include "../../../../config.h"
        os.makedirs("%s/binding/ruby/ext/%s" % (gen, x), exist_ok=True)
    rbase = base + ["-I%s/binding/ruby/ext/core" % gen] + ["-I%s/binding/ruby/ext/%s" % (REPO, x)
                    for x in ("core", "client", "server", "manager")]
    for l in ("core", "client", "server", "manager"):
        add("rb_" + l, csrc("binding/ruby/ext/" + l),
            rbase + ['-DMILTER_LOG_DOMAIN="ruby-milter-%s"' % l] + GLIB +
            (manager_defs if l == "manager" else []) + RUBYINC)
    add("rbconf", csrc("module/configuration/ruby"),
        rbase + ['-DMILTER_LOG_DOMAIN="milter-manager-ruby-configuration"'] + GLIB +
        manager_defs + RUBYINC)
    add("exe_manager", csrc("src"), base + common + GLIB + manager_defs)
    for t in ("milter-test-client", "milter-test-server", "milter-test-client-libmilter"):
        s = os.path.join(REPO, "tool", t + ".c")
        if os.path.exists(s):
            add("exe_" + t, [s], base + ["-I%s/milter" % gen] + common + ['-DMILTER_LOG_DOMAIN="%s"' % t] +
                GLIB + ["-I%s/libmilter" % REPO])
    for s in sorted(glob.glob(os.path.join(VERIF, "harness/c/*.c"))):
        add("h_" + os.path.basename(s)[:-2], [s],
            base + GLIB + ['-DMILTER_LOG_DOMAIN="harness"', "-I%s/libmilter" % REPO])

    objs = {}

    def compile_one(i, job):
        group, src, flags = job
        o = os.path.join(bld, "obj", "%s-%s.o" % (group, os.path.basename(src)[:-2]))
        _run(["gcc"] + flags + opt + ["-c", src, "-o", o])
        return group, o

    with cf.ThreadPoolExecutor(10) as ex:
        for group, o in ex.map(lambda a: compile_one(*a), enumerate(jobs)):
            objs.setdefault(group, []).append(o)

    L = os.path.join(bld, "lib")
    rp = ["-Wl,-rpath," + L, "-L" + L] + extra_link

    def lib(name, group, deps):
        _run(["gcc", "-shared", "-o", "%s/lib%s.so" % (L, name)] + objs[group] +
             rp + ["-l" + d for d in deps] + GLIBL + (["-lev"] if group == "core" else []))

    lib("milter-core", "core", [])
    lib("milter-client", "client", ["milter-core"])
    lib("milter-server", "server", ["milter-core"])
    lib("milter-manager", "manager", ["milter-client", "milter-server", "milter-core"])
    lib("milter-compat", "libmilter", ["milter-client", "milter-core"])
    alld = ["-lmilter-manager", "-lmilter-client", "-lmilter-server", "-lmilter-core"]
    for l, deps in (("core", ["-lmilter-core"]),
                    ("client", ["-lmilter-client", "-lmilter-core"]),
                    ("server", ["-lmilter-server", "-lmilter-core"]),
                    ("manager", alld)):
        _run(["gcc", "-shared", "-o", "%s/ext/milter_%s.so" % (bld, l)] +
             objs["rb_" + l] + rp + deps + GLIBL + ["-lruby-3.2", "-lm"])
    _run(["gcc", "-shared", "-o", "%s/module/milter-manager-ruby-configuration.so" % bld] +
         objs["rbconf"] + rp + alld + GLIBL + ["-lruby-3.2", "-lm", "-Wl,-z,lazy"])
    for g, oo in objs.items():
        if g.startswith("exe_"):
            name = "milter-manager" if g == "exe_manager" else g[4:]
            _run(["gcc", "-o", "%s/bin/%s" % (bld, name)] + oo + rp +
                 (["-lmilter-compat"] if "libmilter" in name else []) + alld + GLIBL)
        elif g.startswith("h_"):
            _run(["gcc", "-o", "%s/bin/%s" % (bld, g[2:])] + oo + rp +
                 ["-lmilter-compat"] + alld + GLIBL)
    shutil.rmtree(os.path.join(bld, "obj"), ignore_errors=True)
    # the checks run the daemon as an unprivileged user
    for root, dirs, files in os.walk(bld):
        os.chmod(root, 0o755)
        for f in files:
            p = os.path.join(root, f)
            os.chmod(p, os.stat(p).st_mode | 0o444)


if __name__ == "__main__":
    t = time.time()
    try:
        b = build(sys.argv[1] if len(sys.argv) > 1 else "plain")
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(b, "%.1fs" % (time.time() - t))
