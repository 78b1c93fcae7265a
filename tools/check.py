#!/usr/bin/env python3
"""Build and run one check:  check.py <ID> [--thorough] [--replay FILE] [--part NAME]

The harness is /verif/harness/<ID>*.c.  Its header comment names the sources of
/repo it needs:
  MC-GROUPS: top device model2030 ...     groups of /repo sources, see GROUPS
  MC-CFLAGS: extra flags
  MC-SAN:    asan | none
Everything is compiled from /repo's current working tree into /verif/.build/<ID>.
"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SKIP = re.compile(r"^(bin2c|pr_cros|cros\d|panel\d|rollers\d|main)")

def group(d, skip=()):
    out = []
    for f in sorted(glob.glob(os.path.join(SRC, d, "*.c"))):
        b = os.path.basename(f)
        if SKIP.match(b) or b in skip:
            continue
        out.append(f)
    return out

def top():
    # the simulator's top level library, without its main program
    return [f for f in group("") if os.path.basename(f) not in ("main.c", "layout.c")]

GROUPS = {
    "top": top,
    "device": lambda: group("device"),
    "testdev": lambda: [os.path.join(SRC, "test", "test_device.c")],
}
ROS = {"model2030": ("cros2030.c", "ccros2030.txt", "model2030_ros.h"),
       "model2050": ("cros2050.c", "ros.txt", "model2050_ros.h"),
       "model2844": ("cros2844.c", "model2844_ros.txt", "model2844_ros.h")}
OPTIONAL_SKIP = {"model2030": ("model1050.c",)}

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    sys.stdout.flush()
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)

def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    cands = glob.glob(os.path.join(VERIF, "harness", pid + "*.c"))
    if len(cands) != 1:
        die("no harness for %s" % pid)
    harness = cands[0]
    text = open(harness).read()
    def opt(name, default=""):
        m = re.search(r"MC-%s:(.*)" % name, text)
        return m.group(1).strip() if m else default
    groups = opt("GROUPS").split()
    cflags = opt("CFLAGS").split()
    san = opt("SAN", "asan")
    olevel = opt("OPT", "-O1")
    tier = "thorough" if "--thorough" in args else os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        args.remove("--thorough")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    bdir = os.path.join(VERIF, ".build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    cc = opt("CC", "gcc")
    base = [cc, "-g", olevel, "-std=gnu11", "-w", "-fno-strict-aliasing", "-fwrapv", "-fno-common", "-DDEBUG"]
    if san.startswith("asan"):
        base += ["-fsanitize=address" + (",bounds" if "bounds" in san else ""), "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    incs = ["-I" + bdir, "-I" + SRC, "-I" + os.path.join(SRC, "device"), "-I" + os.path.join(SRC, "panel"), "-I" + os.path.join(SRC, "model1052"),
            "-I" + os.path.join(SRC, "test"), "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]
    with open(os.path.join(bdir, "config.h"), "w") as f:
        f.write(open(os.path.join(SRC, "config.h.in")).read().replace("#cmakedefine HAVE_UNISTD_H", "#define HAVE_UNISTD_H 1"))
    jobs = []           # (src, obj, flags)
    objs_by_group = {}
    for g in groups:
        gi = []
        if g in GROUPS:
            files = GROUPS[g]()
        else:
            files = group(g, OPTIONAL_SKIP.get(g, ()))
            gi = ["-I" + os.path.join(SRC, g)]
            if g in ROS:
                gen, txt = ROS[g][0], ROS[g][1]
                exe = os.path.join(bdir, "gen_" + g)
                r = run(["gcc", "-w", "-I" + SRC, "-I" + os.path.join(SRC, "device"), "-I" + os.path.join(SRC, g), "-I" + bdir,
                         "-o", exe, os.path.join(SRC, g, gen)])
                if r.returncode:
                    die("microcode generator of %s does not build:\n%s" % (g, r.stdout))
                r = run([exe, os.path.join(SRC, g, txt), ROS[g][2]], cwd=bdir)
                if r.returncode or not os.path.exists(os.path.join(bdir, ROS[g][2])):
                    die("microcode generator of %s failed:\n%s" % (g, r.stdout))
            incs += gi              # headers of the model are needed by the harness
        for f in files:
            o = os.path.join(bdir, g + "_" + os.path.basename(f)[:-2] + ".o")
            jobs.append((f, o, gi + cflags))
            objs_by_group.setdefault(g, []).append(o)
    hobj = os.path.join(bdir, "harness.o")
    jobs.append((harness, hobj, cflags + ["-Wall"]))
    mobj = os.path.join(bdir, "mc.o")
    jobs.append((os.path.join(VERIF, "lib", "mc.c"), mobj, []))
    extra = []
    for e in opt("EXTRA").split():
        o = os.path.join(bdir, "x_" + os.path.basename(e)[:-2] + ".o")
        jobs.append((os.path.join(VERIF, "harness", e), o, cflags)); extra.append(o)
    def comp(j):
        return run(base + j[2] + incs + ["-c", "-o", j[1], j[0]])
    with ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(comp, jobs)):
            if r.returncode:
                die("compiling %s:\n%s" % (j[0], r.stdout))
            if os.environ.get("MC_VERBOSE") and r.stdout:
                print(r.stdout)
    # the internal state of a processor becomes a section of its own, so that a harness can save and restore all of it
    for g in ("model2030", "model2050"):
        for o in objs_by_group.get(g, []):
            if os.path.basename(o) == g + "_cpu" + g[5:] + ".o":
                r = run(["objcopy", "--rename-section", ".bss=snap" + g[5:], o])
                if r.returncode:
                    die(r.stdout)
    libs = []
    for g, ol in objs_by_group.items():
        lib = os.path.join(bdir, "lib%s.a" % g)
        r = run(["ar", "rcs", lib] + ol)
        if r.returncode:
            die(r.stdout)
        libs.append(lib)
    exe = os.path.join(bdir, "check")
    wrap = ["-Wl,--wrap=" + w for w in opt("WRAP").split()]
    r = run(base + ["-o", exe, hobj, mobj] + extra + wrap + ["-Wl,--start-group"] + libs + ["-Wl,--end-group", "-lm"])
    if r.returncode:
        die("linking:\n" + r.stdout)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    env = dict(os.environ)
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid, dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
    env.update(MC_SCRATCH=scratch, MC_EVIDENCE=os.path.join(evdir, pid + ".json"),
               MC_REPLAY_DIR=os.path.join(VERIF, "replays"), MC_KNOWN=os.path.join(VERIF, "known-findings.txt"),
               VERIF_TIER=tier,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=512:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=6",
               UBSAN_OPTIONS="exitcode=99:print_stacktrace=1")
    if "--replay" in args:
        env.pop("MC_EVIDENCE")
    errf = os.path.join(bdir, "stderr.txt")
    budget = 840 if tier == "thorough" else 600
    try:
        with open(errf, "w") as ef:
            p = subprocess.Popen([exe] + args, env=env, stdout=sys.stdout, stderr=ef, stdin=subprocess.DEVNULL, cwd=scratch)
            try:
                rc = p.wait(timeout=budget + 40)
            except subprocess.TimeoutExpired:
                p.kill(); rc = 2
                print("check timed out")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc != 0:
        with open(errf, errors="replace") as f:
            t = f.read()
        mcl = "".join(l for l in t.splitlines(True) if l.startswith("mc:"))[:1500]
        i = t.find("ERROR: AddressSanitizer")
        i = max(0, t.find("runtime error")-200) if i < 0 else i
        sys.stderr.write(t[i:i+2000] + "\n" + mcl)
    if rc not in (0, 1):
        rc = 2
    if not os.environ.get("MC_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

main()
