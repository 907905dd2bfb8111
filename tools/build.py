#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree and /verif/sim.

Objects are kept in a content-addressed cache (/verif/build/cache): the key of an
object is the hash of its flags, its source and the contents of every non-system
header it includes, so an edited tree never reuses a stale object and an unedited
one is not rebuilt.  usage: build.py h|t|all
"""
import fcntl, glob, hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PREFIX = "/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix"
SIM = os.path.join(VERIF, "sim")
CXX = "/usr/bin/g++"
DEFINES = ("-DBOOST_ATOMIC_DYN_LINK -DBOOST_ATOMIC_NO_LIB -DBOOST_CHRONO_DYN_LINK -DBOOST_CHRONO_NO_LIB "
  "-DBOOST_CONTAINER_DYN_LINK -DBOOST_CONTAINER_NO_LIB -DBOOST_DATE_TIME_DYN_LINK -DBOOST_DATE_TIME_NO_LIB "
  "-DBOOST_FILESYSTEM_DYN_LINK -DBOOST_FILESYSTEM_NO_LIB -DBOOST_FUSION_INVOKE_MAX_ARITY=12 "
  "-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 "
  "-DBOOST_SERIALIZATION_DYN_LINK -DBOOST_SERIALIZATION_NO_LIB -DBOOST_THREAD_DYN_LINK -DBOOST_THREAD_NO_LIB "
  "-DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DHPP_CONSTRAINTS_USE_QPOASES "
  "-DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 -DOCTOMAP_PATCH_VERSION=0 "
  "-DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION "
  "-DPINOCCHIO_URDFDOM_HEADERS_MAJOR_VERSION=3 -DPINOCCHIO_URDFDOM_HEADERS_MINOR_VERSION=0 "
  "-DPINOCCHIO_URDFDOM_HEADERS_PATCH_VERSION=0 -DPINOCCHIO_WITH_COLLISION -DPINOCCHIO_WITH_HPP_FCL "
  "-DPINOCCHIO_WITH_URDFDOM -DTINYXML2_IMPORT -D_FILE_OFFSET_BITS=64").split()
BASE = ["-std=gnu++17", "-w", "-include", "map", "-O1", "-g1", "-fno-omit-frame-pointer", "-fPIC", "-fopenmp"] + DEFINES
def includes():
    return ["-I" + os.path.join(SIM, "gen"), "-I" + os.path.join(REPO, "include"),
            "-isystem", PREFIX + "/include", "-isystem", PREFIX + "/include/eigen3",
            "-isystem", PREFIX + "/include/pinocchio/deprecated",
            "-isystem", PREFIX + "/include/urdfdom", "-isystem", PREFIX + "/include/urdfdom_headers"]
LIBS = ["hpp-pinocchio", "qpOASES", "hpp-util", "pinocchio_parsers", "pinocchio_collision", "pinocchio_default",
        "coal", "urdfdom_model", "tinyxml2", "octomap", "octomath",
        "boost_filesystem", "boost_serialization", "boost_thread", "boost_atomic", "boost_chrono"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()
_cache = {}
def fhash(path):
    if path not in _cache:
        try:
            with open(path, "rb") as f: _cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError: _cache[path] = "missing"
    return _cache[path]

def tracked(dep):
    return dep.startswith(REPO + "/") or dep.startswith(VERIF + "/")

def compile_one(src, flags, tag):
    """Returns the path of an object for src; reuses a cached one when all contents match."""
    rel = os.path.relpath(src, "/").replace("/", "_")
    d = os.path.join(BUILD, "cache", tag, rel)
    os.makedirs(d, exist_ok=True)
    base = sha("v3", " ".join(flags), fhash(src))[:24]
    for man in sorted(glob.glob(os.path.join(d, base + ".*.deps"))):
        with open(man) as f: deps = [l.rstrip("\n").split("\t") for l in f]
        if all(fhash(p) == h for p, h in deps):
            obj = man[:-5] + ".o"
            if os.path.exists(obj): os.utime(obj); return obj, False
    tmp = os.path.join(d, "%s.%d.tmp" % (base, os.getpid()))
    cmd = [CXX] + flags + includes() + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("compilation of %s failed:\n%s" % (src, r.stdout[-6000:]))
    with open(tmp + ".d") as f: txt = f.read().replace("\\\n", " ")
    deps = sorted(set(x for x in txt.split(":", 1)[1].split() if tracked(os.path.abspath(x))))
    deps = [os.path.abspath(x) for x in deps]
    body = "".join("%s\t%s\n" % (p, fhash(p)) for p in deps)
    key = base + "." + sha(body)[:16]
    obj = os.path.join(d, key + ".o")
    os.replace(tmp + ".o", obj)
    with open(tmp + ".d", "w") as f: f.write(body)
    os.replace(tmp + ".d", os.path.join(d, key + ".deps"))
    return obj, True

def repo_sources():
    """The library's sources: those its CMakeLists lists when it can be read, otherwise all of src."""
    allsrc = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True))
    try:
        with open(os.path.join(REPO, "CMakeLists.txt")) as f: txt = f.read()
        listed = [os.path.join(REPO, m) for m in re.findall(r"(src/[\w./-]+\.cc)", txt)]
        if len(listed) >= 10 and all(os.path.exists(x) for x in listed): return sorted(set(listed))
    except OSError: pass
    return allsrc

def build(which):
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs = []
        if which == "h":
            for s in sorted(glob.glob(os.path.join(SIM, "common", "*.cc")) + glob.glob(os.path.join(SIM, "h", "*.cc"))):
                jobs.append((s, BASE + ["-I" + SIM], "sim"))
            for s in repo_sources(): jobs.append((s, BASE, "h"))
            link_extra = []
        else:
            # code under test, compiled with the compiler's memory access callbacks; the callbacks
            # themselves are implemented by the simulator (sim/t).  It comes first, so that inline
            # functions of headers are the ones with callbacks
            for s in repo_sources(): jobs.append((s, BASE + ["-fsanitize=thread"], "t"))
            for s in sorted(glob.glob(os.path.join(SIM, "common", "*.cc")) + glob.glob(os.path.join(SIM, "t", "*.cc"))):
                jobs.append((s, BASE + ["-I" + SIM], "sim"))
            for s in ("world.cc", "robot.cc"):
                jobs.append((os.path.join(SIM, "h", s), BASE + ["-I" + SIM, "-DSIM_THREADS"], "simt"))
            link_extra = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]
        # longest first
        weight = {"generic-transformation.cc": 9, "hierarchical-iterative.cc": 8, "static-stability.cc": 8,
                  "relative-transformation.cc": 6, "by-substitution.cc": 6}
        order = sorted(range(len(jobs)), key=lambda i: -(10 if jobs[i][2].startswith("sim") else weight.get(os.path.basename(jobs[i][0]), 1)))
        objs = [None] * len(jobs); built = 0
        with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
            futs = {i: ex.submit(compile_one, *jobs[i]) for i in order}
            for i in order:
                objs[i], b = futs[i].result(); built += b
        exe = os.path.join(BUILD, "bin", "sim_" + which)
        key = sha("link4", which, " ".join(link_extra), *objs)
        stamp = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            cmd = [CXX, "-fopenmp", "-rdynamic", "-no-pie" if False else "-pie", "-o", exe + ".tmp"] + objs + link_extra + \
                  ["-L" + PREFIX + "/lib", "-Wl,--disable-new-dtags,-rpath," + PREFIX + "/lib"] + ["-l" + l for l in LIBS] + ["-lpthread", "-ldl"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0: raise RuntimeError("link failed:\n" + r.stdout[-6000:])
            os.replace(exe + ".tmp", exe)
            with open(stamp, "w") as f: f.write(key)
        # keep the cache small: drop objects not used for a while when it grows
        tot = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(BUILD, "cache", "*", "*", "*.o"))]
        if sum(x[1] for x in tot) > 6e9:
            for m, s, p in sorted(tot)[:len(tot) // 2]:
                if p not in objs:
                    os.unlink(p)
                    d = p[:-2] + ".deps"
                    if os.path.exists(d): os.unlink(d)
        return exe, dict(compiled=built, objects=len(objs), wall_s=round(time.time() - t0, 1))
    finally:
        lock.close()

if __name__ == "__main__":
    for w in ((["h", "t"] if glob.glob(os.path.join(SIM, "t", "*.cc")) else ["h"]) if sys.argv[1] == "all" else [sys.argv[1]]):
        try: print(build(w))
        except RuntimeError as e: print(e); sys.exit(2)
