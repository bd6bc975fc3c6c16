"""Builds ruy's sources plus a driver into an executable, from /repo's current
working tree. Objects are cached under /verif/build, keyed by the hash of the
preprocessed text and the flags, so unchanged code is not recompiled and changed
code always is."""
import glob, hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"

ARCH = {
    "avx512": ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-mavx512dq"],
    "avx2_fma": ["-mavx2", "-mfma"],
    "avx": ["-mavx"],
}

def arch_flags(src):
    b = os.path.basename(src)[:-3]
    for k, v in ARCH.items():
        if b.endswith("_" + k):
            return v
    return []

NOT_LIBRARY = re.compile(r"(^|_)test(_|\.)|_arm(32|64)?\.cc$")


def ruy_sources(profiler=False):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "ruy", "*.cc"))):
        b = os.path.basename(f)
        if NOT_LIBRARY.search(b) or b in ("benchmark.cc", "pmu.cc"):
            continue
        out.append(f)
    for f in sorted(glob.glob(os.path.join(REPO, "ruy", "profiler", "*.cc"))):
        b = os.path.basename(f)
        if NOT_LIBRARY.search(b):
            continue
        out.append(f)
    return out

BASE = ["-std=gnu++14", "-g1", "-I" + REPO, "-I" + os.path.join(VERIF, "mc"),
        "-I" + os.path.join(VERIF, "common"), "-Wno-undef", "-w", "-pthread"]

VARIANTS = {
    # The build the project itself uses.
    "opt": dict(flags=["-O2", "-DRUY_HAVE_CPUINFO"], link=["-l:libcpuinfo.so.0"]),
    "nocpuinfo": dict(flags=["-O2"], link=[]),
    "optp": dict(flags=["-O2", "-DRUY_HAVE_CPUINFO", "-DRUY_PROFILER"], link=["-l:libcpuinfo.so.0"]),
    # Instrumented for the controlled scheduler.
    "mc": dict(flags=["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"],
               link=["-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove", "-ldl", "-rdynamic"]),
    "mcp": dict(flags=["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-DRUY_PROFILER"],
                link=["-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove", "-ldl", "-rdynamic"]),
    "asan": dict(flags=["-O1", "-DRUY_HAVE_CPUINFO", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 link=["-l:libcpuinfo.so.0", "-fsanitize=address"]),
}

class BuildError(Exception):
    pass

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-4000:]))
    return p.stdout

def compile_obj(src, flags):
    flags = BASE + (flags if "-DVERIF_NO_ARCH" in flags else flags + arch_flags(src))
    text = _run([CXX, "-E", "-P"] + flags + [src])
    h = hashlib.sha256()
    h.update(text)
    # Definitions act through the preprocessed text only.
    h.update(" ".join(f for f in flags if f[:2] not in ("-I", "-D")).encode())
    h.update(os.path.basename(src).encode())
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, "%s.%s.o" % (os.path.basename(src)[:-3], h.hexdigest()[:24]))
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        _run([CXX] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj

def build(name, driver_srcs, variant, extra_flags=(), driver_flags=(), sources=None, plain=()):
    """driver_srcs: compiled with the variant's flags; plain: without instrumentation."""
    v = VARIANTS[variant]
    srcs = ruy_sources(variant.endswith("p")) if sources is None else sources
    jobs = [(s, v["flags"] + list(extra_flags)) for s in srcs]
    jobs += [(s, v["flags"] + list(extra_flags) + list(driver_flags)) for s in driver_srcs]
    jobs += [(s, ["-O2"]) for s in plain]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    key = hashlib.sha256((" ".join(objs) + " ".join(v["link"])).encode()).hexdigest()[:16]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", "%s.%s" % (name, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        _run([CXX, "-o", tmp] + objs + ["-pthread"] + v["link"])
        os.rename(tmp, exe)
    return exe

def build_mc(name, driver, profiler=False, defines=()):
    return build(name, [os.path.join(VERIF, driver)], "mcp" if profiler else "mc", extra_flags=defines,
                 plain=[os.path.join(VERIF, "mc", "mcrt.cc")], driver_flags=["-fno-access-control"])

def build_enum(name, part):
    srcs = [part["driver"]] + part.get("srcs", [])
    return build(name, [os.path.join(VERIF, s) for s in srcs], part.get("variant", "opt"),
                 extra_flags=part.get("defines", []),
                 driver_flags=["-fno-access-control"] + part.get("flags", []))
