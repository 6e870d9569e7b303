#!/usr/bin/env python3
"""Builds the simulator: freediag's sources from /repo (instrumented, with the OS calls redirected to
vos_* functions) linked with the simulator of /verif/sim. Prints the path of the binary."""
import os, sys, subprocess, hashlib, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
SIMSRC = os.path.join(VERIF, "sim")
GCC, GXX = "/usr/bin/gcc", "/usr/bin/g++"

REDIR = """open close read write select poll ioctl fcntl isatty opendir readdir closedir
clock_gettime clock_nanosleep nanosleep usleep sleep gettimeofday time
timer_create timer_settime timer_delete
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
sigaction getuid malloc calloc realloc free strdup strndup fopen fclose exit readline add_history fgets getc
tcdrain tcflush""".split()
# operating system services the simulator does not stand in for: their use would escape it
ESCAPES = """pselect ppoll epoll_wait pthread_create pthread_cond_wait pthread_cond_timedwait sem_wait
sem_timedwait sigwait sigtimedwait pause alarm setitimer fork system popen mmap openat fopen64 open64
tcsetattr tcgetattr tcsendbreak clock random rand srand getrandom rename unlink remove""".split()

CFLAGS = ["-std=gnu99", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds",
          "-fno-sanitize-recover=bounds", "-fsanitize-coverage=trace-pc", "-ftrivial-auto-var-init=pattern",
          "-U_FORTIFY_SOURCE", "-fno-common", "-w"]
XFLAGS = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused-function -Wno-misleading-indentation", "-D_GNU_SOURCE"]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout))
        raise SystemExit(2)
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def stale(obj, dig):
    try:
        return open(obj + ".dig").read() != dig or not os.path.exists(obj)
    except OSError:
        return True


def mark(obj, dig):
    with open(obj + ".dig", "w") as f:
        f.write(dig)


def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sc = os.path.join(REPO, "scantool")
    hdrs = [p for p in glob.glob(sc + "/**/*", recursive=True) if p.endswith((".h", ".in"))] + [os.path.join(REPO, "cconf.h.in")]
    cm = [os.path.join(REPO, "CMakeLists.txt"), os.path.join(sc, "CMakeLists.txt")]
    # 1. generated sources: cmake configure only
    gen = os.path.join(OUT, "cm")
    dg = digest(cm + [os.path.join(sc, "diag_config.c.in"), os.path.join(REPO, "cconf.h.in")])
    if stale(os.path.join(gen, "cconf.h"), dg):
        shutil.rmtree(gen, ignore_errors=True)
        env = dict(os.environ, CC=GCC, CXX=GXX, LC_ALL="C.UTF-8")
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CMAKE_BUILD_TYPE", "CMAKE_GENERATOR"):
            env.pop(k, None)
        run(["cmake", "-S", REPO, "-B", gen, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_DIAGTEST=ON",
             "-DCMAKE_C_FLAGS=-Wno-error"], env=env)
        mark(os.path.join(gen, "cconf.h"), dg)
    srcs = [p for p in sorted(glob.glob(sc + "/*.c") + glob.glob(sc + "/scantool_850/*.c"))
            if not p.endswith("_win.c") and os.path.basename(p) != "diag_test.c"]
    srcs.append(os.path.join(gen, "scantool", "diag_config.c"))
    inc = ["-I", sc, "-I", gen, "-I", os.path.join(sc, "scantool_850")]
    hd = digest(hdrs + [os.path.join(gen, "cconf.h")], " ".join(CFLAGS))
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    keep = set()
    for s in srcs:
        base = os.path.relpath(s, sc if s.startswith(sc) else gen).replace("/", "_")
        o = os.path.join(objdir, "r_" + base + ".o")
        keep.add(o)
        d = digest([s], hd + " ".join(REDIR))
        objs.append(o)
        if stale(o, d):
            def job(s=s, o=o, d=d):
                extra = ["-DCURFILE=\"%s\"" % os.path.basename(s)]
                if os.path.basename(s) == "scantool.c":
                    extra.append("-Dmain=freediag_main")
                run([GCC] + CFLAGS + extra + inc + ["-c", s, "-o", o])
                cmd = ["objcopy"]
                for r in REDIR:
                    cmd += ["--redefine-sym", "%s=vos_%s" % (r, r)]
                run(cmd + [o])
                mark(o, d)
            jobs.append(job)
    xh = digest(glob.glob(SIMSRC + "/*.h") + hdrs + [os.path.join(gen, "cconf.h")], " ".join(XFLAGS))
    for s in sorted(glob.glob(SIMSRC + "/*.cpp")) + sorted(glob.glob(SIMSRC + "/*.c")):
        o = os.path.join(objdir, "s_" + os.path.basename(s) + ".o")
        keep.add(o)
        objs.append(o)
        d = digest([s], xh)
        if stale(o, d):
            def job(s=s, o=o, d=d):
                if s.endswith(".c"):
                    run([GCC, "-std=gnu99", "-O1", "-g1", "-w"] + inc + ["-c", s, "-o", o])
                else:
                    run([GXX] + XFLAGS + inc + ["-c", s, "-o", o])
                mark(o, d)
            jobs.append(job)
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    for f in glob.glob(objdir + "/*.o"):
        if f not in keep:
            os.unlink(f)
    binp = os.path.join(OUT, "simrun")
    d = digest([o + ".dig" for o in objs])
    if stale(binp, d):
        und = run(["nm", "-u"] + [o for o in objs if os.path.basename(o).startswith("r_")])
        names = {l.split()[-1] for l in und.splitlines() if l.strip().startswith("U ")}
        esc = sorted(names & set(ESCAPES))
        with open(os.path.join(OUT, "escapes"), "w") as f:
            f.write(" ".join(esc))
        if esc:
            sys.stderr.write("warning: calls that the simulator does not control: %s\n" % " ".join(esc))
        run([GXX, "-fsanitize=address,bounds", "-o", binp + ".new"] + objs + ["-lpthread", "-lrt", "-lm"])
        os.rename(binp + ".new", binp)
        mark(binp, d)
    print(binp)


if __name__ == "__main__":
    main()
