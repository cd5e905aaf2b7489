#!/usr/bin/env python3
"""Builds the simulation runner from /repo's current working tree into /verif/build (git-ignored)."""
import fcntl, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("USCADA_REPO", "/repo")
BUILD = os.environ.get("USCADA_SIM_BUILD", os.path.join(VERIF, "build"))

WRAPS = """
read write close socket bind listen accept accept4 connect fcntl ioctl setsockopt getsockopt shutdown
send sendto sendmsg recv recvfrom readv writev
epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait eventfd timerfd_create timerfd_settime timerfd_gettime poll
clock_gettime gettimeofday time localtime localtime_r gmtime gmtime_r strftime nanosleep clock_nanosleep usleep sleep sched_yield
_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv
pthread_create pthread_join pthread_detach pthread_self pthread_setaffinity_np pthread_getaffinity_np
pthread_setname_np pthread_setschedparam
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE
_ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv
_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE
_ZNSt6thread4joinEv _ZNSt6thread6detachEv
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
rand srand printf puts putchar signal sigaction
""".split()


def repo_sources():
    src = []
    root = os.path.join(REPO, "src")
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("ut", "test", "tests"))
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".c")):
                src.append(os.path.join(d, f))
    return src


def include_dirs():
    dirs = set()
    for d, sub, files in os.walk(os.path.join(REPO, "src")):
        if any(f.endswith((".hpp", ".h")) for f in files) and os.path.basename(d) != "mock":
            dirs.add(d)
    return sorted(dirs)


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate():
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    incs = " ".join("-I" + d for d in include_dirs())
    common = "-std=gnu++20 -g1 -fno-omit-frame-pointer -fsanitize=address -U_FORTIFY_SOURCE -pipe -pthread"
    out = ["ninja_required_version = 1.5",
           "incs = " + incs,
           "rule sut",
           f"  command = g++ {common} -O1 -w -DEBUG $extra -fsanitize-coverage=trace-pc -ftrivial-auto-var-init=pattern $incs -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d",
           "  deps = gcc",
           "  description = SUT $in",
           "rule har",
           f"  command = g++ {common} -O1 -Wall -Wno-unused -I{VERIF}/sim -I{VERIF}/scen -isystem {BUILD} $incs -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d",
           "  deps = gcc",
           "  description = HARNESS $in",
           "rule link",
           "  command = g++ -fsanitize=address -pthread -rdynamic @$out.rsp -o $out",
           "  rspfile = $out.rsp",
           "  rspfile_content = $wraps $in",
           "  description = LINK $out",
           "wraps = " + " ".join("-Wl,--wrap=" + w for w in WRAPS)]
    objs = []
    for s in repo_sources():
        o = "obj/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        objs.append(o)
        out.append(f"build {o}: sut {esc(s)}")
        out.append("  extra = " + ("-Dmain=uscada_main" if os.path.basename(s) == "main.cpp" else ""))
    for d in ("sim", "scen"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            if f.endswith(".cpp"):
                o = f"obj/{d}_{f}.o"
                objs.append(o)
                out.append(f"build {o}: har {esc(os.path.join(VERIF, d, f))}")
    out.append("build simrunner: link " + " ".join(objs))
    out.append("default simrunner")
    text = "\n".join(out) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    old = open(p).read() if os.path.exists(p) else None
    if old != text:
        with open(p, "w") as f:
            f.write(text)


def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        r = subprocess.run(["ninja", "-C", BUILD, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-8000:])
        sys.stderr.write("\nbuild of the simulation failed\n")
        return None
    if not quiet:
        print(r.stdout[-500:])
    return os.path.join(BUILD, "simrunner")


if __name__ == "__main__":
    sys.exit(0 if build(quiet=False) else 2)
