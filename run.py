#!/usr/bin/env python3
"""Build /repo's current tree into the simulators and run a check.

usage: run.py setup | check ID [quick|thorough] | replay FILE [--trace] | build
Everything is built under /verif/build (git-ignored) from /repo's working tree.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
GENS = ["bidirectional", "case", "character", "line", "sentence", "word"]
CPP = ["-D_ISOC99_SOURCE"]


class Err(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise Err("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[:4000]))
    return r.stdout


def par(cmds):
    ps, out = [], []
    for c in cmds:
        while len(ps) >= 12:
            c0, p0 = ps.pop(0)
            o = p0.communicate()[0]
            if p0.returncode:
                out.append((c0, o))
        ps.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for c0, p0 in ps:
        o = p0.communicate()[0]
        if p0.returncode:
            out.append((c0, o))
    if out:
        raise Err("command failed: %s\n%s" % (" ".join(out[0][0]), out[0][1].decode(errors="replace")[:4000]))


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def files(*pats):
    r = []
    for p in pats:
        r += glob.glob(os.path.join(REPO, p))
    return r


def publish(tmp, dst):
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def prune(kind, keep=6):
    ds = sorted(glob.glob(os.path.join(BUILD, kind + "-*")), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def gen_tables():
    """Compile and run /repo's table generators on /repo/data."""
    src = files("gen/*.c", "gen/*.h")
    d = os.path.join(BUILD, "gen-" + digest(src + files("data/*")))
    if os.path.isdir(d):
        os.utime(d)
        return d
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    par([["cc", "-std=c99", "-O2"] + CPP + ["-o", tmp + "/" + g, REPO + "/gen/" + g + ".c", REPO + "/gen/util.c"] for g in GENS])
    ps = []
    for g in GENS:
        ps.append((g, subprocess.Popen([tmp + "/" + g], cwd=REPO, stdout=open(tmp + "/" + g + ".h", "wb"), stderr=subprocess.PIPE)))
    for g, p in ps:
        e = p.communicate()[1]
        if p.returncode:
            raise Err("generator %s failed: %s" % (g, e.decode(errors="replace")[:500]))
    publish(tmp, d)
    prune("gen")
    return d


def lib_tree():
    """src + headers + generated tables in one tree."""
    g = gen_tables()
    src = files("src/*.c", "src/*.h", "gen/types.h", "grapheme.h")
    d = os.path.join(BUILD, "tree-" + digest(src, os.path.basename(g)))
    if os.path.isdir(d):
        os.utime(d)
        return d
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp + "/src")
    os.makedirs(tmp + "/gen")
    for p in files("src/*.c", "src/*.h"):
        shutil.copy(p, tmp + "/src")
    for p in files("gen/*.h"):
        shutil.copy(p, tmp + "/gen")
    shutil.copy(REPO + "/grapheme.h", tmp)
    for x in GENS:
        shutil.copy(g + "/" + x + ".h", tmp + "/gen")
    publish(tmp, d)
    prune("tree")
    return d


HARNESS = ["main.cpp", "core.cpp", "model.cpp", "worlds.cpp"]


def build_sim(t=None):
    """Main simulator: library under AddressSanitizer with step counting."""
    t = t or lib_tree()
    hs = [os.path.join(SIM, x) for x in os.listdir(SIM)] + [os.path.join(VERIF, "run.py")]
    d = os.path.join(BUILD, "sim-" + digest(hs, os.path.basename(t)))
    exe = d + "/gsim"
    if os.path.exists(exe):
        os.utime(d)
        return exe
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    cmds = []
    for p in sorted(glob.glob(t + "/src/*.c")):
        cmds.append(["clang", "-std=c99", "-O1", "-g", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w"] + CPP +
                    ["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard", "-c", p, "-o", tmp + "/lib_" + os.path.basename(p)[:-2] + ".o"])
    hd = os.path.join(BUILD, "harness-" + digest(hs + [t + "/grapheme.h"]))
    objs = []
    if not os.path.isdir(hd):
        htmp = hd + ".tmp%d" % os.getpid()
        os.makedirs(htmp)
        for h in HARNESS:
            cmds.append(["clang++", "-std=c++17", "-O2", "-Wall", "-Wextra", "-DGSIM_ASAN_LINK", "-I" + t, "-I" + SIM, "-c", os.path.join(SIM, h), "-o", htmp + "/" + h + ".o"])
    par(cmds)
    if not os.path.isdir(hd):
        publish(htmp, hd)
        prune("harness")
    objs = sorted(glob.glob(hd + "/*.o")) + sorted(glob.glob(tmp + "/*.o"))
    sh(["clang++", "-fsanitize=address", "-o", tmp + "/gsim"] + objs)
    publish(tmp, d)
    prune("sim")
    return exe


def pad_constants(path):
    """Put a guard behind every constant object of an assembly file and list the guards in gsimpads."""
    out, ro, k = [], False, 0
    for l in open(path, errors="replace"):
        out.append(l)
        w = l.split()
        if not w:
            continue
        if w[0] in (".text", ".data", ".bss"):
            ro = False
        elif w[0] == ".section":
            a = l.split(None, 1)[1].split(",")
            ro = a[0].strip().startswith(".rodata") and len(a) > 1 and "M" not in a[1]
        elif w[0] == ".rodata":
            ro = True
        elif w[0] == ".size" and ro and re.match(r"\.size\s+\S+,\s*\d+\s*(#.*)?$", l.strip()):
            out.append(".Lgsimpad%d:\n\t.zero\t1024\n\t.pushsection\tgsimpads,\"a\",@progbits\n\t.quad\t.Lgsimpad%d\n\t.popsection\n" % (k, k))
            k += 1
    with open(path, "w") as f:
        f.writelines(out)


REDEF = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "strnlen", "memchr", "malloc", "calloc", "realloc", "free",
         "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"]


def build_conc(t=None):
    """Concurrency simulator: library with a callback on every load, store and basic block."""
    t = t or lib_tree()
    hs = [os.path.join(SIM, x) for x in os.listdir(SIM)] + [os.path.join(VERIF, "run.py")]
    d = os.path.join(BUILD, "conc-" + digest(hs, os.path.basename(t) + "".join(REDEF)))
    exe = d + "/gconc"
    if os.path.exists(exe):
        os.utime(d)
        return exe
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    cmds, objs = [], []
    for p in sorted(glob.glob(t + "/src/*.c")):
        o = tmp + "/lib_" + os.path.basename(p)[:-2] + ".o"
        objs.append(o)
        cmds.append(["clang", "-std=c99", "-O0", "-g", "-fno-omit-frame-pointer", "-w", "-fno-pic", "-fno-common", "-fno-zero-initialized-in-bss", "-fno-vectorize", "-fno-slp-vectorize"] + CPP +
                    ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-S", p, "-o", o[:-1] + "s"])
    hd = os.path.join(BUILD, "charness-" + digest(hs + [t + "/grapheme.h"]))
    if not os.path.isdir(hd):
        htmp = hd + ".tmp%d" % os.getpid()
        os.makedirs(htmp)
        for h in HARNESS + ["conc.cpp"]:
            cmds.append(["clang++", "-std=c++17", "-O2", "-Wall", "-Wextra", "-fno-pic", "-DGSIM_CONC", "-I" + t, "-I" + SIM, "-c", os.path.join(SIM, h), "-o", htmp + "/" + h + ".o"])
    par(cmds)
    if not os.path.isdir(hd):
        publish(htmp, hd)
        prune("charness")
    for o in objs:
        pad_constants(o[:-1] + "s")
    par([["clang", "-c", o[:-1] + "s", "-o", o] for o in objs])
    sync = re.compile(r"_Atomic|\batomic_|stdatomic|__atomic_|__sync_|pthread_once|call_once|\bmtx_")
    with open(tmp + "/flags.c", "w") as f:
        f.write("int gsim_no_race = %d;\n" % any(sync.search(open(p, errors="replace").read()) for p in glob.glob(t + "/src/*")))
    sh(["clang", "-c", tmp + "/flags.c", "-o", tmp + "/flags.o"])
    for o in objs:
        secs = sh(["objdump", "-h", o]).decode()
        names = [l.split()[1] for l in secs.splitlines() if len(l.split()) > 5 and l.split()[0].isdigit()]
        args = []
        for n in names:
            if n.startswith(".rodata"):
                args += ["--rename-section", n + "=gsimlibro,alloc,load,readonly,data,contents"]
            elif (n.startswith(".data") or n.startswith(".bss")) and not n.startswith(".debug"):
                args += ["--rename-section", n + "=gsimlibdata,alloc,load,data,contents"]
        for f in REDEF:
            args += ["--redefine-sym", f + "=gsim_" + f]
        sh(["objcopy"] + args + [o])
    sh(["clang++", "-no-pie", "-o", tmp + "/gconc"] + sorted(glob.glob(hd + "/*.o")) + objs + [tmp + "/flags.o"])
    publish(tmp, d)
    prune("conc")
    return exe


ALLGENS = GENS + ["character-test", "word-test", "sentence-test", "line-test", "bidirectional-test"]
GREDEF = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup", "getline", "getdelim", "fopen"]


def build_gen():
    """Generator simulator: each table generator, complete, on a simulated machine."""
    src = files("gen/*.c", "gen/*.h")
    hs = [os.path.join(SIM, x) for x in os.listdir(SIM)] + [os.path.join(VERIF, "run.py")]
    d = os.path.join(BUILD, "ggen-" + digest(src + hs + [REPO + "/grapheme.h"]))
    exe = d + "/ggen"
    if os.path.exists(exe):
        os.utime(d)
        return exe
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    cf = ["clang", "-std=c99", "-O2", "-g", "-w", "-fno-pic", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"] + CPP + ["-fsanitize-coverage=trace-pc-guard"]
    cmds = []
    for g in ALLGENS:
        cmds.append(cf + ["-Dmain=genmain_" + g.replace("-", "_"), "-c", REPO + "/gen/" + g + ".c", "-o", tmp + "/g_" + g + ".o"])
    cmds.append(cf + ["-c", REPO + "/gen/util.c", "-o", tmp + "/util.o"])
    hd = os.path.join(BUILD, "gharness-" + digest(hs + [REPO + "/grapheme.h"]))
    if not os.path.isdir(hd):
        htmp = hd + ".tmp%d" % os.getpid()
        os.makedirs(htmp)
        for h in ["main.cpp", "core.cpp", "model.cpp", "gen.cpp"]:
            cmds.append(["clang++", "-std=c++17", "-O2", "-Wall", "-Wextra", "-fno-pic", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + SIM, "-c", os.path.join(SIM, h), "-o", htmp + "/" + h + ".o"])
    par(cmds)
    if not os.path.isdir(hd):
        publish(htmp, hd)
        prune("gharness")
    objs = []
    for g in ALLGENS:
        o = tmp + "/all_" + g + ".o"
        sh(["ld", "-r", "-o", o, tmp + "/g_" + g + ".o", tmp + "/util.o"])
        sh(["objcopy", "--keep-global-symbol=genmain_" + g.replace("-", "_")] + [x for f in GREDEF for x in ("--redefine-sym", f + "=gsim_" + f)] + [o])
        objs.append(o)
    sh(["clang++", "-no-pie", "-o", tmp + "/ggen"] + sorted(glob.glob(hd + "/*.o")) + objs)
    publish(tmp, d)
    prune("ggen")
    return exe


GEN_PROPS = ("C19", "C20", "C21", "C22")
MAIN_PROPS = ["C%02d" % i for i in range(1, 16)] + ["C18"]


def executable(prop):
    if prop in GEN_PROPS:
        return ["env", "GSIM_DATA=" + REPO + "/data", build_gen()]
    return [build_conc() if prop in ("C16", "C17") else build_sim()]


def repo_digest():
    return digest(files("src/*.[ch]", "gen/*.[ch]", "data/*", "grapheme.h"))


def known(prop):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            f = l.strip().split(None, 2)
            if l.startswith("known:") and f[1] == "property=" + prop:
                i, what = f[2].split(None, 1)
                r[i[3:]] = what
    return r


def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cmd = sys.argv[1]
    if cmd in ("setup", "build"):
        print(build_sim())
        print(build_conc())
        print(build_gen())
        return 0
    if cmd == "replay":
        prop = [l.split()[1] for l in open(sys.argv[2]) if l.startswith("prop ")][0]
        exe = executable(prop)
        fcntl.flock(lock, fcntl.LOCK_UN)
        return subprocess.call(exe + ["replay", os.path.abspath(sys.argv[2]), "--known", ",".join(known(prop))] + sys.argv[3:])
    if cmd == "check":
        from evidence import run_check
        prop, tier = sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        return run_check(prop, tier, lambda: fcntl.flock(lock, fcntl.LOCK_UN))
    return 3


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.modules["run"] = sys.modules["__main__"]
    sys.stdout.reconfigure(line_buffering=True)
    try:
        sys.exit(main())
    except Err as e:
        print("gsim: %s" % e, file=sys.stderr)
        sys.exit(3)
