#!/usr/bin/env python3
"""Builds the drivers in /verif/harness against /repo/src's working tree.

Every translation unit is compiled again unless the contents (not the times) of
all files it read last time, its command and the compiler are unchanged.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SKIP = {"grazer.cpp", "EquationDerivativeCache.cpp", "Costgradienthandler.cpp"}
CXX = "g++"
BASE = ["-std=c++17", "-O1", "-w", "-fno-pie", "-DHAVE_CSTDDEF",
        "-DGRAZER_VERSION=verif", "-ffp-contract=off"]

_hash = {}
def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[p] = None
    return _hash[p]

def up_to_date(stamp, cmd):
    try:
        s = json.load(open(stamp))
    except (OSError, ValueError):
        return False
    if s["cmd"] != cmd or not os.path.exists(s["out"]):
        return False
    return all(fhash(p) == h for p, h in s["deps"].items())

def parse_deps(path):
    txt = open(path).read().replace("\\\n", " ")
    return [d for d in txt.split(":", 1)[1].split() if d]

def sysdep(p):
    return p.startswith(("/usr/", "/opt/"))

def compile_one(src, obj, flags):
    cmd = [CXX] + flags + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    stamp = obj + ".stamp"
    if up_to_date(stamp, cmd):
        return None
    for p in (stamp, obj):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    deps = {p: fhash(p) for p in parse_deps(obj + ".d") if not sysdep(p)}
    json.dump({"cmd": cmd, "out": obj, "deps": deps}, open(stamp, "w"))
    return None

def ipopt_headers():
    d = os.path.join(OUT, "ipopt")
    done = os.path.join(d, ".done")
    if not os.path.exists(done):
        os.makedirs(d, exist_ok=True)
        for f in glob.glob("/usr/include/coin/*"):
            if os.path.isfile(f):
                t = open(f, errors="surrogateescape").read()
                if os.path.basename(f) == "IpOptionsList.hpp":
                    key = "virtual bool SetStringValue("
                    assert key in t
                    t = t.replace(key,
                        "bool SetBoolValue(const std::string &tag, bool value)\n"
                        "    { return SetStringValue(tag, value ? \"yes\" : \"no\"); }\n    " + key, 1)
                open(os.path.join(d, os.path.basename(f)), "w", errors="surrogateescape").write(t)
        open(done, "w").write("ok")
    return d

def jobs_list():
    incs = sorted({os.path.dirname(p) for p in glob.glob(REPO + "/src/**/*.hpp", recursive=True)
                   if os.path.basename(os.path.dirname(p)) == "include" or True})
    inc = ["-I" + os.path.join(VERIF, "harness", "shim")] + ["-I" + i for i in incs]
    inc += ["-I" + d for d in sorted({os.path.dirname(p) for p in glob.glob(REPO + "/Randutils/**/*.hpp", recursive=True)})]
    inc += ["-isystem", "/usr/include/eigen3", "-I" + ipopt_headers()]
    return inc

def java():
    src = sorted(glob.glob(os.path.join(VERIF, "java", "vt", "*.java")))
    out = os.path.join(OUT, "java")
    key = hashlib.sha256("".join(str(fhash(s)) for s in src).encode()).hexdigest()
    stamp = os.path.join(out, ".stamp")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                        "-d", out] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit("javac failed:\n" + r.stdout)
    open(stamp, "w").write(key)

def build(verbose=False):
    """Returns the path of the driver binary; raises RuntimeError when /repo or the harness does not compile."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose)

def _build(verbose):
    _hash.clear()
    java()
    inc = jobs_list()
    flags = BASE + inc
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)
    # precompiled header with the heavy third-party headers only
    pch_src = os.path.join(VERIF, "harness", "pch.hpp")
    pch = os.path.join(OUT, "pch.hpp")
    with open(pch, "w") as f:
        f.write(open(pch_src).read())
    pflags = BASE + ["-isystem", "/usr/include/eigen3"]
    pkey = hashlib.sha256((str(fhash(pch_src)) + repr(pflags)).encode()).hexdigest()
    pst = os.path.join(OUT, "pch.stamp")
    if not (os.path.exists(pst) and open(pst).read() == pkey and os.path.exists(pch + ".gch")):
        r = subprocess.run([CXX] + pflags + ["-x", "c++-header", pch, "-o", pch + ".gch"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("pch: " + r.stdout[-3000:])
        open(pst, "w").write(pkey)
    flags = ["-include", pch] + flags
    srcs = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        if os.path.basename(p) not in SKIP:
            srcs.append((p, os.path.join(objdir, os.path.relpath(p, REPO).replace("/", "__") + ".o"), flags))
    gz = REPO + "/src/Grazer/grazer.cpp"
    if os.path.exists(gz):
        srcs.append((gz, os.path.join(objdir, "grazer_main.o"), flags + ["-Dmain=grazer_main"]))
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        srcs.append((p, os.path.join(objdir, "h__" + os.path.basename(p) + ".o"), flags + ["-I" + os.path.join(VERIF, "harness")]))
    errs = []
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for e in ex.map(lambda a: compile_one(*a), srcs):
            if e:
                errs.append(e)
    if errs:
        raise RuntimeError("\n".join(errs))
    exe = os.path.join(OUT, "driver")
    objs = [o for _, o, _ in srcs]
    cmd = [CXX, "-no-pie", "-o", exe] + objs + ["-lipopt", "-lpthread", "-ldl"]
    key = hashlib.sha256((repr(cmd) + "".join(hashlib.sha256(open(o, "rb").read()).hexdigest() for o in objs)).encode()).hexdigest()
    st = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(st) and open(st).read() == key):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("link: " + r.stdout[-4000:])
        open(st, "w").write(key)
    return exe

if __name__ == "__main__":
    try:
        print(build(True))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
